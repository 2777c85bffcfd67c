"""Generated style sheets: an abstract sheet, its CSS text, and what it means.

The meaning (matching, cascade, values) is implemented here on the abstract sheet,
following the CSS specification, for the part of CSS that parce.css documents.
"""
NAMES = ["a", "b", "h1", "p", "div"]
CLASSES = ["x", "y", "z", "big-one"]
IDS = ["i", "j"]
ATTRS = ["href", "lang", "data-k"]
ATTRVALS = ["v", "v-w", "v w", "w", "", "V", "nl-BE", "v\tw", "x\nw  v"]
PSEUDO = ["first-child", "last-child", "only-child", "first-of-type", "last-of-type", "empty", "hover", "focus"]
PSEUDO_ELEM = ["before", "selection"]
PROPS = ["color", "background", "font-weight", "--x", "margin"]
OPS = ["=", "~=", "|=", "^=", "$=", "*="]
STRINGS = ["", "a", "a b", "it's", "say \"x\"", "back\\slash", "é𝄞", "a;b}c{", "/* no */", "new\nline", "url(x)", "1", "41", "\t", "\ufffd", "a\ufffdb", "\U0010ffff", "\ufffd\ufffd1"]
URLS = ["x.png", "../a/b.css", "http://x.y/z?a=b&c", "a b.png", "it's", "a)b", "é.png", "x\"y"]
IDENTS = ["bold", "solid", "foo", "-webkit-x", "é", "a1", "--y", "inherit", "B_x", "abc"]
COLORS = {"red": (255, 0, 0), "dimgray": (105, 105, 105), "black": (0, 0, 0), "white": (255, 255, 255),
          "cornflowerblue": (100, 149, 237), "lime": (0, 255, 0)}


# ------------------------------------------------------------------ selectors

def specs(e):
    """All elements of a generated tree."""
    yield e
    for c in e["children"]:
        yield from specs(c)


def gen_compound(s, elems=()):
    if elems and s.int(0, 5):
        # something that some element has
        e = s.pick(elems)
        c = {"name": e["name"] if s.one_in(3) else None, "ids": [], "classes": [], "attrs": [], "pseudo": [], "elem": []}
        for k in e["classes"]:
            if s.int(0, 1):
                c["classes"].append(k)
        if e["id"] and s.one_in(3):
            c["ids"].append(e["id"])
        for k, v in e["attrs"].items():
            if s.one_in(3):
                op = s.pick([None] + OPS)
                c["attrs"].append([k, op, op and s.pick([v, v, v.split("-")[0], v.split(" ")[-1], v.lower()] + ATTRVALS),
                                   op and s.pick([None, None, None, "i", "I"])])
        if s.one_in(5):
            c["pseudo"].append(s.pick(PSEUDO))
        if c["name"] is None and not any(c[k] for k in ("ids", "classes", "attrs", "pseudo", "elem")):
            c["name"] = s.pick(["*", e["name"]])
        return c
    c = {"name": s.pick([None, None, "*"] + NAMES), "ids": [], "classes": [], "attrs": [], "pseudo": [], "elem": []}
    for _ in range(s.pick([0, 1, 1, 1, 2, 3])):
        k = s.int(0, 9)
        if k < 5:
            c["classes"].append(s.pick(CLASSES))
        elif k == 5:
            c["ids"].append(s.pick(IDS))
        elif k < 8:
            op = s.pick([None] + OPS)
            c["attrs"].append([s.pick(ATTRS), op, op and s.pick(ATTRVALS), op and s.pick([None, None, None, None, "i", "I"])])
        else:
            c["pseudo"].append(s.pick(PSEUDO))
    if s.one_in(12):
        c["elem"].append(s.pick(PSEUDO_ELEM))
    if c["name"] is None and not any(c[k] for k in ("ids", "classes", "attrs", "pseudo", "elem")):
        c["classes"].append(s.pick(CLASSES))
    return c


def gen_selectors(s, elems=()):
    """[compound, combinator, compound, ...]"""
    out = [gen_compound(s, elems)]
    for _ in range(s.pick([0, 0, 0, 1, 1, 2, 3])):
        out += [s.pick([" ", " ", ">", "+", "~"]), gen_compound(s, elems)]
    return out


def specificity(selectors):
    a = b = c = 0
    for x in selectors[::2]:
        a += len(x["ids"])
        b += len(x["classes"]) + len(x["attrs"]) + len(x["pseudo"])
        c += (x["name"] not in (None, "*")) + len(x["elem"])
    return a, b, c


# ------------------------------------------------------------------- elements

def gen_element(s, depth=3):
    return {"name": s.pick(NAMES[:3] if s.int(0, 2) else NAMES), "classes": s.sample(CLASSES, s.pick([0, 1, 1, 2])),
            "id": s.pick([None, None, None] + IDS), "attrs": {k: s.pick(ATTRVALS) for k in s.sample(ATTRS, s.pick([0, 0, 1, 2]))},
            "csep": s.pick([" ", " ", "  ", "\t", "\n"]), "pseudo": s.sample(["hover", "focus"], s.pick([0, 0, 1])), "elem": s.sample(PSEUDO_ELEM, s.pick([0, 0, 0, 1])),
            "children": s.list(lambda s: gen_element(s, depth - 1), 1 if depth == 3 else 0, 4, 1.6) if depth else []}


class Node:
    """An element of the model tree."""

    def __init__(self, spec, parent=None, index=0):
        self.spec = spec
        self.parent = parent
        self.index = index
        self.children = [Node(c, self, i) for i, c in enumerate(spec["children"])]

    def all(self):
        yield self
        for c in self.children:
            yield from c.all()

    def siblings(self):
        return self.parent.children if self.parent else [self]


def match_compound(n, c):
    e = n.spec
    if c["name"] not in (None, "*") and c["name"] != e["name"]:
        return False
    if any(i != e["id"] for i in c["ids"]) or any(k not in e["classes"] for k in c["classes"]):
        return False
    for name, op, val, flag in c["attrs"]:
        if name not in e["attrs"]:
            return False
        v = e["attrs"][name]
        if op is None:
            continue
        if flag:
            v, val = v.lower(), val.lower()
        if op == "=":
            ok = v == val
        elif op == "|=":
            ok = v == val or v.startswith(val + "-")
        elif op == "~=":
            ok = bool(val) and val.split() == [val] and val in v.split()
        elif not val:
            ok = False
        else:
            ok = {"^=": v.startswith(val), "$=": v.endswith(val), "*=": val in v}[op]
        if not ok:
            return False
    sib = n.siblings()
    for p in c["pseudo"]:
        before, after = sib[:n.index] if n.parent else [], sib[n.index + 1:] if n.parent else []
        ok = {"first-child": not before, "last-child": not after, "only-child": not before and not after,
              "first-of-type": all(x.spec["name"] != e["name"] for x in before),
              "last-of-type": all(x.spec["name"] != e["name"] for x in after),
              "empty": not n.children}.get(p)
        if ok is None:
            ok = p in e["pseudo"]
        if not ok:
            return False
    return all(p in e["elem"] for p in c["elem"])


def match(n, selectors):
    """Right to left, trying all possibilities."""
    if not match_compound(n, selectors[-1]):
        return False
    if len(selectors) == 1:
        return True
    comb, rest = selectors[-2], selectors[:-2]
    if comb == ">":
        cand = [n.parent] if n.parent else []
    elif comb == " ":
        cand = []
        p = n.parent
        while p:
            cand.append(p)
            p = p.parent
    else:
        cand = n.siblings()[:n.index] if n.parent else []
        if comb == "+":
            cand = cand[-1:]
    return any(match(m, rest) for m in cand)


# --------------------------------------------------------------------- values

def gen_value(s, depth=1):
    k = s.int(0, 8 if depth else 7)
    if k == 0:
        return ["ident", s.pick(IDENTS)]
    if k == 1:
        return ["named", s.pick(sorted(COLORS) + ["transparent"])]
    if k == 2:
        n = s.pick([3, 4, 6, 8])
        return ["hex", s.text("0123456789abcdefABCDEF", n, n)]
    if k == 3:
        pct = s.int(0, 3) == 3
        nums = [[s.pick(["0", "100", "50", "33.3", "12", "120", "-10"]), "%"] if pct else
                [s.pick(["0", "255", "128", "1", "300", "17", "-7"]), ""] for _ in range(3)]
        alpha = s.pick([None, None, ["0", ""], ["1", ""], [".5", ""], ["0.25", ""], ["50", "%"], ["100", "%"], ["0", "%"], ["1.5", ""], ["150", "%"], ["-1", ""]])
        return ["rgb", s.pick(["rgb", "rgba"]), nums + ([alpha] if alpha else [])]
    if k == 4:
        return ["num", s.pick(["0", "1", "12", "-3", "+4", ".5", "1.25", "-0.75", "1e+3", "100", "007", "2e3", "5E-2"]),
                s.pick(["", "px", "em", "%", "pt", "rem"])]
    if k == 5:
        return ["string", s.pick(STRINGS)]
    if k == 6:
        return ["url", s.pick(URLS)]
    if k == 7:
        return ["ident", s.pick(IDENTS)]
    return ["func", s.pick(["foo", "linear-gradient", "var"]), s.list(lambda s: gen_value(s, 0), 0, 3, 1.5)]


def gen_decl(s):
    return {"prop": s.pick(PROPS), "values": s.list(gen_value, 1, 4, 1.6), "comma": s.int(0, 2) == 2, "important": s.one_in(4)}


def number(text):
    v = float(text)
    return int(v) if v == int(v) else v


def expect_value(v):
    """Attributes a Value should have."""
    k = v[0]
    if k == "ident":
        return {"text": v[1]}
    if k == "named":
        c = (0, 0, 0, 0) if v[1] == "transparent" else COLORS[v[1]] + (1.0,)
        return {"text": v[1], "color": c}
    if k == "hex":
        h = v[1]
        if len(h) in (3, 4):
            h = "".join(c + c for c in h)
        n = [int(h[i:i + 2], 16) for i in range(0, len(h), 2)]
        return {"text": "#" + v[1], "color": tuple(n[:3]) + ((n[3] / 255) if len(n) > 3 else 1.0,)}
    if k == "rgb":
        out = []
        for i, (t, unit) in enumerate(v[2]):
            m = 1 if i == 3 else 255
            x = float(t)
            if unit == "%":
                x = x * m / 100
            out.append(min(m, max(0, x)))
        if len(out) == 3:
            out.append(1.0)
        return {"color": tuple(out)}
    if k == "num":
        return {"text": v[1], "number": number(v[1]), "unit": v[2] or None}
    if k == "string":
        return {"text": v[1], "quoted": True}
    if k == "url":
        return {"url": v[1]}
    return {"funcname": v[1], "arguments": [expect_value(x) for x in v[2]]}


FIELDS = ["text", "number", "unit", "url", "color", "funcname", "quoted", "arguments"]


def same_value(got, want):
    from parce.css import Value
    if not isinstance(got, Value):
        return False
    for f in FIELDS:
        g = getattr(got, f)
        w = want.get(f)
        if f == "color" and w is not None:
            if g is None or len(g) != 4:
                return False
            # rounding of a percentage is free
            if any(abs(x - y) > 0.51 or not isinstance(x, int) for x, y in zip(g[:3], w[:3])) or abs(g[3] - w[3]) > 1e-6:
                return False
        elif f == "arguments":
            g = [x for x in g if isinstance(x, Value)]
            w = w or []
            if len(g) != len(w) or not all(same_value(x, y) for x, y in zip(g, w)):
                return False
        elif f == "text" and "color" in want and f not in want:
            pass
        elif f == "quoted":
            if bool(g) != bool(w):
                return False
        elif g != w and (g or None) != w:
            return False
    return True


# -------------------------------------------------------------------- writing

class Writer:
    """Write the sheet with varying whitespace, comments, quotes and escapes."""

    def __init__(self, s):
        self.s = s
        self.plain = s.int(0, 3) < 2

    def ws(self, must=False):
        if self.plain:
            return " " if must else ""
        w = self.s.pick(["", " ", "\n", "  ", "\t", " \n "])
        return w or (" " if must else "")

    def gap(self, must=False):
        """Whitespace or a comment."""
        if not self.plain and self.s.one_in(8):
            return self.ws(must) + self.s.pick(["/**/", "/* c */", "/* } */", "/* \" */"]) + self.ws()
        return self.ws(must)

    def ident(self, text):
        out = ""
        for i, c in enumerate(text):
            if not self.plain and self.s.one_in(12):
                out += self.escape(c)
            else:
                out += c
        return out

    def escape(self, c):
        h = self.s.pick(["{:x}", "{:X}", "{:06x}"]).format(ord(c))
        if c == "\ufffd":
            # also what is no character
            h = self.s.pick([h, "0", "000000", "d800", "DFFF", "dc00", "110000", "ffffff"])
        # the space belongs to the escape, and is only needed before a hex digit or a space
        return "\\" + h + " "

    def string(self, text):
        q = self.s.pick("\"'")
        out = ""
        for c in text:
            if c == "\n":
                out += "\\a "
            elif c in (q, "\\"):
                out += self.s.pick(["\\" + c, self.escape(c)])
            elif c == "\ufffd" or not self.plain and self.s.one_in(15):
                out += self.escape(c)
            elif not self.plain and self.s.one_in(20):
                out += "\\\n" + c
            else:
                out += c
        return q + out + q

    def compound(self, c):
        out = c["name"] and (c["name"] if c["name"] == "*" else self.ident(c["name"])) or ""
        parts = ["#" + self.ident(i) for i in c["ids"]]
        parts += ["." + self.ident(k) for k in c["classes"]]
        for name, op, val, flag in c["attrs"]:
            p = "[" + self.ws() + self.ident(name) + self.ws()
            if op:
                simple = val and val.replace("-", "").isalnum()
                if simple and self.s.int(0, 1):
                    p += op + self.ws() + self.ident(val)
                    p += " " + flag if flag else self.ws()
                else:
                    p += op + self.ws() + self.string(val) + ((self.ws() + flag) if flag else self.ws())
            parts.append(p + "]")
        parts += [":" + self.ident(p) for p in c["pseudo"]]
        if not self.plain:
            parts = self.s.shuffle(parts)
        return out + "".join(parts) + "".join("::" + p for p in c["elem"])

    def selectors(self, sel):
        out = self.compound(sel[0])
        for i in range(1, len(sel), 2):
            out += (self.gap(True) if sel[i] == " " else self.gap() + sel[i] + self.gap()) + self.compound(sel[i + 1])
        return out

    def value(self, v):
        k = v[0]
        if k == "ident":
            return self.ident(v[1])
        if k == "named":
            return v[1]
        if k == "hex":
            return "#" + v[1]
        if k == "rgb":
            sep = self.s.pick([",", ", ", " "]) if len(v[2]) == 3 else self.s.pick([",", ", "])
            return v[1] + "(" + sep.join(t + u for t, u in v[2]) + ")"
        if k == "num":
            return v[1] + v[2]
        if k == "string":
            return self.string(v[1])
        if k == "url":
            u = v[1]
            if self.s.int(0, 1):
                return "url(" + self.ws() + self.string(u) + self.ws() + ")"
            return "url(" + self.ws() + "".join("\\" + c if c in "() '\"\\" else c for c in u) + self.ws() + ")"
        return v[1] + "(" + self.s.pick([", ", ","]).join(self.value(x) for x in v[2]) + ")"

    def decl(self, d):
        sep = self.gap() + "," + self.gap() if d["comma"] else " " + self.gap()
        return (self.ident(d["prop"]) + self.gap() + ":" + self.gap() + sep.join(self.value(v) for v in d["values"]) +
                (self.ws(True) + "!important" if d["important"] else ""))

    def rule(self, r):
        decls = [self.decl(d) for d in r["decls"]]
        body = (";" + self.gap()).join(decls) + (";" if decls and self.s.int(0, 1) else "")
        return (("," + self.gap()).join(self.selectors(x) for x in r["prelude"]) + self.gap() + "{" + self.gap() + body +
                self.gap() + "}")

    def sheet(self, items):
        out = []
        for i in items:
            if i[0] == "rule":
                out.append(self.rule(i[1]))
            elif i[0] == "media":
                out.append("@{} {}{}{{{}{}{}}}".format(i[1], i[2], self.ws(), self.gap(), self.sheet(i[3]), self.gap()))
            elif i[0] == "at":
                out.append("@{}{}{}{{{}{}}}".format(i[3] if len(i) > 3 else "page", " " + i[1] if i[1] else self.ws(), self.ws(),
                                                  self.ws(), "; ".join(self.decl(d) for d in i[2])))
            else:
                out.append("@namespace {};".format(i[1]))
        return (self.gap() or "\n").join(out)


def gen_rule(s, elems=()):
    return {"prelude": s.list(lambda s: gen_selectors(s, elems), 1, 3, 1.3), "decls": s.list(gen_decl, 0, 4, 2)}


def gen_items(s, depth=2, max=9, avg=6, elems=()):
    def item(s):
        k = s.int(0, 9)
        if k < 8 or depth == 0:
            return ["rule", gen_rule(s, elems)]
        if k == 8:
            return ["media", s.pick(["media", "supports"]), s.pick(["screen", "print", "(min-width: 100px)", "screen and (x: 1)"]),
                    gen_items(s, depth - 1, 4, 1.5, elems)]
        if s.bool():
            kw, arg = s.pick([("page", ":left"), ("page", ""), ("page", "name"), ("page", "name:first"), ("font-face", ""), ("counter-style", "foo")])
            return ["at", arg, s.list(gen_decl, 0, 3, 1.5), kw]
        return ["ns", s.pick(["svg", "\"http://x\"", "svg \"http://x\"", "url(http://x)", "a url('x y')"])]
    return s.list(item, 0, max, avg)


def flat_items(items):
    for i in items:
        yield i
        if i[0] == "media":
            yield from flat_items(i[3])


def flat_rules(items, keep=lambda i: True):
    for i in items:
        if i[0] == "rule":
            yield i[1]
        elif i[0] == "media" and keep(i):
            yield from flat_rules(i[3], keep)


def cascade(rules, node):
    """prop -> values that apply to the element."""
    best = {}
    for order, r in enumerate(rules):
        if any(match(node, x) for x in r["prelude"]):
            # every selector of the list counts for itself
            spec = max(specificity(x) for x in r["prelude"] if match(node, x))
            for k, d in enumerate(r["decls"]):
                key = (d["important"], spec, order, k)
                if d["prop"] not in best or best[d["prop"]][0] < key:
                    best[d["prop"]] = key, d["values"]
    # the property with the highest precedence comes last
    return {p: v for p, (_, v) in sorted(best.items(), key=lambda i: i[1][0])}
