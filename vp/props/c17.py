"""C17: HTML output shows the text unchanged, with the right styles and classes."""
from html.parser import HTMLParser

from vp.core import Aspect, Skip, Violation, need, same
from vp import langs as B
from vp.props import c16

NASTY = ["\r", "\r\n", "\x0b", "\x0c", "\u2028", "\xa0", "\U0001d11e", "<", ">", "&", "\"", "'", "&lt;", "&amp;", "</span>", "<b>", "&#39;", "&quot", "]]>", "\n", " ", "é", "\t", "{", "}", "{}", "%s"]
FONTS = ["serif", "\"A & B\"", "\"<x>\"", "'it\\'s'", "\"d\\\"q\"", "\"a;b: c\"", "monospace"]
CLASSES = [".name", ".literal", ".literal.string", ".delimiter", ".comment", ".text", ".name.tag", ".keyword", "._unparsed"]
PROPS = ["color: red;", "color: #123456;", "background: #fed;", "font-weight: bold;", "font-style: italic;",
         "text-decoration: underline;", "font-size: 12pt;"]


def gen_css(s):
    def rule(s):
        props = s.list(lambda s: s.pick(PROPS + ["font-family: {};".format(", ".join(s.list(lambda s: s.pick(FONTS), 1, 2)))]),
                       1, 3, 1.6)
        return ".parce {} {{ {} }}".format(s.pick(CLASSES), " ".join(props))
    rules = s.list(rule, 0, 6, 3)
    if s.int(0, 1):
        rules.insert(0, ".parce {{ color: black; font-family: {}; background-color: #fff }}".format(s.pick(FONTS)))
    if s.one_in(3):
        rules.insert(0, s.pick([".parce:focus { color: #00f }", ".parce:disabled { color: #777 }", ".parce.selection { background: #00f }"]))
    return "\n".join(rules)


QUALS = [q for q in B.QUALNAMES if B.name(q) in ("Html", "Xml", "Css", "Json", "Python", "LilyPond", "Bash", "XHtml")]


def gen(s):
    qual = s.pick(QUALS)
    piece = B.pieces(qual)
    text = "".join(s.list(lambda s: s.pick(NASTY) if s.one_in(4) else piece(s), 0, 40, 14))
    kind = s.pick(["theme", "css", "css", "simple"])
    case = {"lang": qual, "text": text, "kind": kind, "theme": s.pick(c16.THEMES), "css": gen_css(s), "base": s.int(0, 1),
            "start": s.pick([0, 0, s.int(0, 40)]), "end": s.pick([None, None, s.int(0, 100)]), "full": s.int(0, 1), "charset": s.pick([None, "latin-1", "utf-8", "koi8-r"])}
    return case


class Reader(HTMLParser):
    """Collect (character, attributes of the enclosing span)."""

    def __init__(self, inner=None):
        super().__init__(convert_charrefs=True)
        self.out = []
        self.stack = []
        self.inner = inner
        self.pre = None
        self.charset = None
        self.newpre = False     # directly after <pre>, where a newline is ignored

    def handle_starttag(self, tag, attrs):
        self.newpre = False
        if self.inner and not any(t == self.inner for t, _ in self.stack):
            if tag == "meta":
                self.charset = dict(attrs).get("charset")
                return
            self.stack.append((tag, dict(attrs)))
            if tag == self.inner:
                self.pre = dict(attrs)
                self.newpre = True
            return
        need(tag == "span", "unexpected tag <{}>", tag)
        need(not any(t == "span" for t, _ in self.stack), "nested span")
        self.stack.append((tag, dict(attrs)))

    def handle_startendtag(self, tag, attrs):
        need(tag == "meta", "unexpected empty tag {}", tag)
        self.charset = dict(attrs).get("charset")

    def handle_endtag(self, tag):
        need(self.stack and self.stack[-1][0] == tag, "unbalanced end tag {}", tag)
        self.stack.pop()

    def handle_data(self, data):
        if self.inner and not any(t == self.inner for t, _ in self.stack):
            need(not data.strip(), "text outside the pre tag: {!r}", data)
            return
        if self.newpre and data[:1] == "\n":
            data = data[1:]
        self.newpre = False
        attrs = {}
        if self.stack and self.stack[-1][0] == "span":
            attrs = self.stack[-1][1]
        for c in data:
            self.out.append((c, attrs))

    def handle_comment(self, data):
        raise Violation("a comment in the HTML")

    def handle_decl(self, decl):
        need(self.inner, "a declaration in the HTML")

    def handle_pi(self, data):
        raise Violation("a processing instruction in the HTML")


def declarations(style):
    """Parse an inline style to a dict; knows about quotes."""
    out = {}
    part = ""
    quote = None
    i = 0
    parts = []
    while i < len(style):
        c = style[i]
        if c == "\\":
            part += style[i:i + 2]
            i += 2
            continue
        if quote:
            if c == quote:
                quote = None
        elif c in "\"'":
            quote = c
        elif c == ";":
            parts.append(part)
            part = ""
            i += 1
            continue
        part += c
        i += 1
    parts.append(part)
    for p in parts:
        if p.strip():
            k, _, v = p.partition(":")
            need(k.strip() not in out, "property {} twice in {!r}", k, style)
            out[k.strip()] = v.strip()
    return out


def check(case):
    from parce.document import Cursor
    from parce.out.html import HtmlFormatter, SimpleHtmlFormatter
    from parce.theme import Theme
    from vp.treecheck import flat_tokens
    d = c16.document(case)
    text = case["text"]
    z = len(text)
    a = min(case["start"], z)
    e = None if case["end"] is None else max(a, min(case["end"], z))
    stop = z if e is None else e
    c = Cursor(d, a, e)
    toks = list(flat_tokens(d.get_root(True)))
    th = None
    if case["kind"] == "simple":
        f = SimpleHtmlFormatter()
    else:
        th = c16.theme(case["theme"]) if case["kind"] == "theme" else Theme(stylesheet=case["css"])
        f = HtmlFormatter()
        f.add_theme(th, None, bool(case["base"]))
    charset = case.get("charset")
    args = [charset] if charset else []
    html = f.full_html(c, *args) if case["full"] else f.html(c)
    r = Reader("pre" if case["full"] else None)
    r.feed(html)
    r.close()
    need(not r.stack, "tags left open: {!r}", r.stack)
    same("".join(x for x, _ in r.out), text[a:stop], "text in the HTML")
    want = {}
    n = 0
    for t in toks:
        if th is None:
            x = {"class": set(repr(t.action).lower().split("."))}
        else:
            tf = th.textformat(t.action)
            if case["base"]:
                tf = th.baseformat() + tf
            x = tf.css_properties()
        for p in range(t.pos, t.end):
            want[p] = x
        n += bool(x) and t.end > a and t.pos < stop
    if th is not None:
        gap = th.textformat(c16._unparsed()).css_properties()
        if not gap and case["base"]:
            gap = th.baseformat().css_properties()
    inside = [t for t in toks if t.end > a and t.pos < stop]
    last = inside[-1].end if inside else a
    for p, (ch, attrs) in enumerate(r.out, a):
        got = {k: v for k, v in attrs.items()}
        if th is None:
            got = {"class": set(got["class"].split())} if got else {}
        else:
            need(set(got) <= {"style"}, "attributes {!r}", got)
            got = declarations(got.get("style", ""))
        if p in want:
            same(got, want[p], "style of {!r} at {} in {!r}".format(ch, p, text))
        elif th is None:
            same(got, {}, "style of unparsed text at {}".format(p))
        elif p >= last and (e is None or not inside):
            need(got in (gap, {}), "style of unparsed text at {}: {!r}", p, got)
        else:
            same(got, gap, "style of unparsed text at {} in {!r}".format(p, text))
    if case["full"]:
        same(r.charset, charset or "utf-8", "charset")
        base = dict(declarations(r.pre.get("style", "")))
        same(base.pop("white-space", None), "pre", "white-space of the pre tag")
        same(base, th.baseformat().css_properties() if th is not None else {}, "style of the pre tag")
    return n > 2 and any(x in text[a:stop] for x in "<>&")


ASPECTS = [
    Aspect("html", gen, check, quick=900, thorough=12000, shards=5,
           rule="at least three formatted tokens, and a character that needs escaping"),
]
