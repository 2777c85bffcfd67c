"""C22: style sheets are read and applied as CSS prescribes."""
import os
import shutil
import tempfile

from vp.core import Aspect, Skip, Violation, need, same
from vp import cssgen as C
from vp import langs as B


def gen(s):
    tree = C.gen_element(s)
    items = C.gen_items(s, elems=list(C.specs(tree)))
    w = C.Writer(s)
    return {"items": items, "text": w.sheet(items), "tree": tree, "drop": s.pick([None, "media", "supports"])}


def build(node):
    """A real Element tree for the model tree; returns [(node, element)]."""
    from parce.css import Element
    out = []

    def make(n, parent):
        e = n.spec
        attrs = dict(e["attrs"])
        if e["id"]:
            attrs["id"] = e["id"]
        if e["classes"]:
            attrs["class_"] = e.get("csep", " ").join(e["classes"])
        x = Element(e["name"], parent, list(e["pseudo"]), list(e["elem"]), **attrs)
        out.append((n, x))
        for c in n.children:
            make(c, x)
    make(node, None)
    return out


class Xml:
    """Stand-in for an lxml element (lxml is not installed here); false without children, as there."""

    def __init__(self, node, parent=None):
        e = node.spec
        self.tag = e["name"]
        self.attrib = dict(e["attrs"])
        if e["id"]:
            self.attrib["id"] = e["id"]
        if e["classes"]:
            self.attrib["class"] = e.get("csep", " ").join(e["classes"])
        self.parent = parent
        self.kids = [Xml(c, self) for c in node.children]

    def __len__(self):
        return len(self.kids)

    def __iter__(self):
        return iter(self.kids)

    def getparent(self):
        return self.parent

    def itersiblings(self, tag=None, *, preceding=False):
        if self.parent is not None:
            i = next(i for i, k in enumerate(self.parent.kids) if k is self)
            yield from self.parent.kids[:i][::-1] if preceding else self.parent.kids[i + 1:]

    def all(self):
        yield self
        for k in self.kids:
            yield from k.all()


def plain(e):
    """The element tree, without pseudo classes and elements."""
    return dict(e, pseudo=[], elem=[], children=[plain(c) for c in e["children"]])


def compare(props, want, what):
    same(list(props), list(want), "properties, in order of precedence, of " + what)
    for k, values in want.items():
        got = props[k]
        exp = [C.expect_value(v) for v in values]
        need(len(got) == len(exp) and all(C.same_value(g, x) for g, x in zip(got, exp)),
             "{}: {} is {!r}, expected {!r}", what, k, got, exp)


CONTENTS = {"": [], ":left": [":", "(left)"], "name": ["name"], "name:first": ["name", ":", "(first)"], "foo": ["foo"], "svg": ["svg"], "\"http://x\"": ["'http://x'"],
            "svg \"http://x\"": ["svg", "'http://x'"], "url(http://x)": ["<http://x>"], "a url('x y')": ["a", "<x y>"]}


def contents(v):
    """A readable form of a value in the contents of an at-rule."""
    if isinstance(v, str):
        return v
    if isinstance(v, tuple):
        return "({})".format(v[0])
    if v.url:
        return "<{}>".format(v.url)
    return repr(v.text) if v.quoted else v.text


def count(rules):
    return sum(len(r["prelude"]) for r in rules)


def count_rules(style):
    """The number of selectors of the rules."""
    return sum(len(r.prelude) for r in style.rules)


def check(case):
    from parce.css import Atrule, Condition, Rule, StyleSheet, calculate_specificity

    def flat(rules):
        for r in rules:
            if isinstance(r, Condition):
                yield from flat(r.style.rules)
            elif isinstance(r, Rule):
                yield r
    text = case["text"]
    sheet = StyleSheet.from_text(text)
    rules = list(C.flat_rules(case["items"]))
    pairs = build(C.Node(case["tree"]))
    style = sheet.style
    matched = 0
    for n, e in pairs:
        want = C.cascade(rules, n)
        sel = style.select_element(e)
        same(bool(sel.rules), any(C.match(n, x) for r in rules for x in r["prelude"]),
             "whether a rule applies to {!r} in {!r}".format(e, text))
        compare(sel.properties(), want, "{!r} in {!r}".format(e, text))
        matched += len(want) > 0
    same(count_rules(style), count(rules), "number of selectors in {!r}".format(text))
    if case["drop"]:
        f = sheet.filter_conditions(case["drop"], lambda r: False)
        rest = list(C.flat_rules(case["items"], lambda i: i[1] != case["drop"]))
        n, e = pairs[0]
        compare(f.style.select_element(e).properties(), C.cascade(rest, n), "{!r} without conditions".format(text))
        same(count_rules(sheet.filter_conditions(case["drop"], lambda r: True).style), count(rules), "filter that keeps all")
        # only those about screens, at every level
        f = sheet.filter_conditions(case["drop"], lambda r: any(getattr(v, "text", v) == "screen" for v in r.node))
        rest = list(C.flat_rules(case["items"], lambda i: i[1] != case["drop"] or i[2].startswith("screen")))
        compare(f.style.select_element(e).properties(), C.cascade(rest, n), "{!r} with {} conditions for screens".format(text, case["drop"]))
        same(count_rules(f.style), count(rest), "number of selectors of {!r} with {} conditions for screens".format(text, case["drop"]))
    items = [i for i in C.flat_items(case["items"]) if i[0] in ("at", "ns")]
    ats = [(i[3] if len(i) > 3 else "page") if i[0] == "at" else "namespace" for i in items]
    same([r.keyword for r in sheet.at.rules], ats, "at-rules of {!r}".format(text))
    for i, r in zip(items, sheet.at.rules):
        same([contents(v) for v in r.contents], CONTENTS[i[1]], "what is between the at-keyword and the block or end of @{} {} in {!r}".format(r.keyword, i[1], text))
        if i[0] == "ns":
            same(r.block, None, "the block of @namespace in {!r}".format(text))
        else:
            best = {}
            for d in i[2]:
                if d["important"] or not (d["prop"] in best and best[d["prop"]]["important"]):
                    best[d["prop"]] = d
            same(set(r.block), set(best), "the properties of @{} in {!r}".format(r.keyword, text))
            for k, d in best.items():
                exp = [C.expect_value(v) for v in d["values"]]
                got = [v for v in r.block[k] if not isinstance(v, str)]
                need(len(got) == len(exp) and all(C.same_value(g, x) for g, x in zip(got, exp)),
                     "{} of @{} is {!r}, expected {!r}, in {!r}", k, r.keyword, got, exp, text)
    same(len(sheet.at.select("page").rules), ats.count("page"), "page rules of {!r}".format(text))
    node = C.Node(plain(case["tree"]))
    for n, e in list(zip(node.all(), Xml(node).all()))[:5]:
        compare(style.select_lxml_element(e).properties(), C.cascade(rules, n), "XML element {} in {!r}".format(e.tag, text))
    # the specificity of a list of selectors is that of the most specific one
    for rule, m in zip(flat(sheet.rules), rules):
        same(tuple(calculate_specificity(rule.prelude)), max(map(C.specificity, m["prelude"])), "specificity of {!r}".format(rule.prelude))
    # adding sheets is concatenating them
    both = StyleSheet.from_text(text) + StyleSheet.from_text(text)
    n, e = pairs[-1]
    compare(both.style.select_element(e).properties(), C.cascade(rules + rules, n), "two sheets added")
    return matched > 1 and len(rules) > 2


def gen_values(s):
    decls = s.list(C.gen_decl, 1, 6, 3)
    for i, d in enumerate(decls):
        d["prop"] = "p{}".format(i)
    w = C.Writer(s)
    return {"decls": decls, "text": w.rule({"prelude": [[{"name": "a", "ids": [], "classes": [], "attrs": [], "pseudo": [], "elem": []}]],
                                            "decls": decls})}


def check_values(case):
    from parce.css import Element, StyleSheet
    props = StyleSheet.from_text(case["text"]).style.select_element(Element("a")).properties()
    decls = sorted(case["decls"], key=lambda d: d["important"])
    compare(props, {d["prop"]: d["values"] for d in decls}, "{!r}".format(case["text"]))
    return len(case["decls"]) > 1


# ----------------------------------------------------------------- any text

SOUP = ["{", "}", ";", ":", ",", "!important", "@media", "@import", "@", "(", ")", "[", "]", "\"", "'", "\\", "\\110000 ", "\\d800 ",
        "\\0 ", "#", "#ff", "#12345", "rgb(", "rgba(1,2)", "url(", "font", "font-style", "font-size", "color", "\n", " ", "/*", "*/",
        "a", ".parce", ".name", "12", "%", "1.5e", "-", "--", "*", "|", "||", ">", "+", "~", "oblique", "10deg", "red", "</style>",
        "font-family:", "\"x\", serif", "text-decoration", "underline", "none", "caption", "=", "^=", ":not(", "::", "!", "١"]


def gen_soup(s):
    qual = next(q for q in B.QUALNAMES if B.name(q) == "Css")
    piece = B.pieces(qual)
    return {"text": "".join(s.list(lambda s: s.pick(SOUP) if s.int(0, 2) else piece(s), 0, 40, 14)), "wrap": s.int(0, 2)}


def check_soup(case):
    from parce.css import Element, StyleSheet, Value
    from parce.theme import Theme
    import parce.action as A
    text = case["text"]
    if case["wrap"] == 1:
        text = ".parce { " + text + " }"
    elif case["wrap"] == 2:
        text = ".parce .name { color: " + text + ";} .parce { font:" + text
    sheet = StyleSheet.from_text(text, allow_import=False)
    e = Element("a", class_="name", parent=Element(class_="parce"))
    props = sheet.style.select_element(e).properties()
    for k, v in props.items():
        need(isinstance(k, str) and isinstance(v, list) and v and all(isinstance(x, Value) for x in v),
             "property {!r} of {!r} is {!r}", k, text, v)
    StyleSheet.from_data(text.encode("utf-8", "replace"), allow_import=False).style
    if "@" not in text:
        th = Theme(stylesheet=text)
        for f in (th.baseformat(), th.textformat(A.Name), th.baseformat("selection", "focus"), th.baseformat() + th.textformat(A.Name)):
            for k, v in f.css_properties().items():
                need(isinstance(v, str), "css property {} is {!r}", k, v)
    return bool(props)


# ------------------------------------------------------------------- imports

def gen_import(s):
    n = s.int(2, 6)
    files = []
    tree = C.gen_element(s, 2)
    elems = list(C.specs(tree))
    for i in range(n):
        imports = [[s.int(0, n - 1), s.pick(["string", "url", "urlq"]), s.pick([None, None, None, None, "screen", "print and (x)"])]
                   for _ in range(s.pick([1, 1, 2, 3] if i == 0 else [0, 1, 1, 2]))]
        files.append({"dir": s.pick(["", "sub", "sub/deep"]), "imports": imports,
                      "rules": s.list(lambda s: C.gen_rule(s, elems), 0, 2, 1.3),
                      "at": s.sample(["page", "namespace", "font-face"], s.pick([0, 0, 1, 2]))})
    w = C.Writer(s)
    w.plain = True
    for f in files:
        f["text"] = w.sheet([["rule", r] for r in f["rules"]]) + "".join(
            {"page": "\n@page { margin: 1em }", "namespace": "\n@namespace svg;", "font-face": "\n@font-face { font-family: x }"}[k]
            for k in f["at"])
    return {"files": files, "tree": tree}


def check_import(case):
    from parce.css import StyleSheet
    files = case["files"]
    tmp = tempfile.mkdtemp(prefix="vp-css")
    try:
        names = [os.path.join(tmp, f["dir"], "f{}.css".format(i)) for i, f in enumerate(files)]
        for f, name in zip(files, names):
            os.makedirs(os.path.dirname(name), exist_ok=True)
            with open(name, "w", encoding="utf-8") as out:
                for j, how, media in f["imports"]:
                    rel = os.path.relpath(names[j], os.path.dirname(name))
                    out.write("@import " + {"string": '"{}"', "url": "url({})", "urlq": "url('{}')"}[how].format(rel) +
                              (" " + media if media else "") + ";\n")
                out.write(f["text"])

        def walk(i, seen, cond):
            """Yield (file, is conditional); a file is only imported once in a sheet."""
            for j, how, media in files[i]["imports"]:
                if j not in seen:
                    seen.add(j)
                    # a conditional sheet is on its own, it may be filtered out
                    yield from walk(j, set(seen) if media else seen, cond or bool(media))
            yield i, cond
        walked = list(walk(0, {0}, False))
        order = [i for i, c in walked]
        sheet = StyleSheet.from_file(names[0])
        rules = [r for i in order for r in files[i]["rules"]]
        pairs = build(C.Node(case["tree"]))
        for n, e in pairs[:4]:
            compare(sheet.style.select_element(e).properties(), C.cascade(rules, n), "imported sheet")
        same(count_rules(sheet.style), count(rules), "number of selectors of a sheet with imports")
        same([r.keyword for r in sheet.at.rules], [a for i in order for a in files[i]["at"]], "at-rules of a sheet with imports")
        got = [os.path.realpath(f) for f in sheet.filenames()]
        same(got[0], os.path.realpath(names[0]), "first filename")
        same(sorted(set(got)), sorted({os.path.realpath(names[i]) for i in order}), "filenames of the sheet")
        added = sheet + StyleSheet.from_text("a {}", "other.css")
        same(added.filenames()[0], sheet.filenames()[0], "first filename after adding a sheet")
        same(set(added.filenames()), set(sheet.filenames()) | {"other.css"}, "filenames after adding a sheet")
        no = StyleSheet.from_file(names[0], allow_import=False)
        same(count_rules(no.style), count(files[0]["rules"]), "selectors without import")
        other = sheet.filter_conditions("media", lambda r: False)
        same(other.filenames(), sheet.filenames(), "filenames after an unrelated filter")
        same(count_rules(other.style), count(rules), "selectors after an unrelated filter")
        f = sheet.filter_conditions("import", lambda r: False)
        rest = [r for i, c in walked if not c for r in files[i]["rules"]]
        same(count_rules(f.style), count(rest), "selectors with conditional imports filtered")
        same(sorted(set(map(os.path.realpath, f.filenames()))),
             sorted({os.path.realpath(names[i]) for i, c in walked if not c}), "filenames after filtering")
        return len(order) > 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------- encodings

def gen_data(s):
    text = s.text("abc é€\u0141𝄞ß;}{", 0, 8)
    return {"text": text, "how": s.pick(["plain", "charset", "charset", "bom", "wrong", "unknown"]),
            "enc": s.pick(["utf-8", "latin1", "iso8859-2", "cp1252", "utf-16-le", "utf-16-be", "utf-8"]),
            "comment": s.pick(["", " ", "\n"])}


def check_data(case):
    """The encoding of a sheet is the BOM's, else the @charset rule's, else utf-8."""
    import codecs
    from parce.css import Element, StyleSheet
    how, enc, text = case["how"], case["enc"], case["text"]
    body = 'a {{ --x: "{}"; color: red }}'.format(text)
    charset, bom = "", b""
    if how in ("plain", "unknown"):
        enc = "utf-8"
    if how == "unknown":
        charset = '@charset "nonsense";\n'
    elif how == "bom":
        if not enc.startswith("utf"):
            enc = "utf-8"
        bom = {"utf-8": codecs.BOM_UTF8, "utf-16-le": codecs.BOM_UTF16_LE, "utf-16-be": codecs.BOM_UTF16_BE}[enc]
    elif how in ("charset", "wrong"):
        if enc.startswith("utf-16"):
            raise Skip
        charset = '@charset "{}";\n'.format("utf-8" if how == "wrong" else enc)
        if how == "wrong":
            enc = "latin1"
    try:
        data = bom + (charset + case["comment"] + body).encode(enc)
    except UnicodeEncodeError:
        raise Skip
    props = StyleSheet.from_data(data).style.select_element(Element("a")).properties()
    same(list(props), ["--x", "color"], "properties read from {!r}".format(data))
    if how == "wrong":
        text = text.encode(enc).decode("utf-8", "replace")
    same(props["--x"][0].text, text, "string read from {!r}".format(data))
    return not text.isascii()


ASPECTS = [
    Aspect("values", gen_values, check_values, quick=1500, thorough=20000, shards=2,
           rule="at least two declarations"),
    Aspect("sheets", gen, check, quick=900, thorough=12000, shards=4,
           rule="at least three rules, and two elements with properties"),
    Aspect("anytext", gen_soup, check_soup, quick=1500, thorough=20000, shards=2,
           rule="a property is found for the element"),
    Aspect("imports", gen_import, check_import, quick=300, thorough=3000, shards=2,
           rule="a file is imported"),
    Aspect("encodings", gen_data, check_data, quick=600, thorough=6000, shards=1,
           rule="the text is not ascii"),
]
