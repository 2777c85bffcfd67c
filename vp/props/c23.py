"""C23: a theme gives every action the format its style sheet prescribes, and formats combine and write faithfully."""
import os
import shutil
import tempfile

from vp.core import Aspect, Skip, Violation, need, same

# actions by the names in their path
ACTIONS = ["Text", "Comment", "Literal", "Literal.Number", "Literal.String", "Literal.String.Escape", "Escape", "Name", "Name.Tag",
           "Name.Tag.Definition", "Keyword", "Delimiter.Bracket", "Name.Comment", "Comment.Name"]
WORDS = sorted({w.lower() for a in ACTIONS for w in a.split(".")})
COLOR = ["red", "#123456", "#12345678", "#fff8", "rgb(1, 2, 3)", "rgba(10,20,30,.5)", "transparent", "black", "rgba(1,2,3,0)"] + ["#0102{:02x}{:02x}".format(k, k) for k in range(3, 255, 4)] + ["rgba(4, 5, {}, .{:02})".format(k, k) for k in range(2, 100, 3)]
RGBA = {"red": (255, 0, 0, 1), "#123456": (18, 52, 86, 1), "#12345678": (18, 52, 86, 120 / 255), "#fff8": (255, 255, 255, 136 / 255),
        "rgb(1, 2, 3)": (1, 2, 3, 1), "rgba(10,20,30,.5)": (10, 20, 30, .5), "transparent": (0, 0, 0, 0), "black": (0, 0, 0, 1),
        "rgba(1,2,3,0)": (1, 2, 3, 0)}
RGBA.update(("#0102{:02x}{:02x}".format(k, k), (1, 2, k, k / 255)) for k in range(3, 255, 4))
RGBA.update(("rgba(4, 5, {}, .{:02})".format(k, k), (4, 5, k, k / 100)) for k in range(2, 100, 3))
FAMILIES = {"serif": "serif", "\"My Font\"": "My Font", "'it\\'s'": "it's", "\"d\\\"q\"": "d\"q", "monospace": "monospace", "\"a, b\"": "a, b",
            "\"line\\a x\"": "line\nx", "\"Arial\"": "Arial", "\"b\\\\s\"": "b\\s", "\"1x\"": "1x", "\"é\"": "é",
            "\"a\\22 b\"": "a\"b", "\"x\\d y\"": "x\ry", "\"x\\c 1\"": "x\f1", "'\\5c a'": "\\a", "'a\\9 b'": "a\tb", "'\\22 \\22 '": '""'}
SIZES = [("12pt", (12, "pt")), ("1.5em", (1.5, "em")), ("large", ("large", None)), ("small", ("small", None)), ("80%", (80, "%")),
         ("0", (0, None)), ("9pt", (9, "pt")), ("12px", (12, "px")), ("2em", (2, "em"))]
STYLES = [("normal", ("normal", None, None)), ("italic", ("italic", None, None)), ("oblique", ("oblique", None, None)),
          ("oblique 10deg", ("oblique", 10, "deg")), ("oblique 0deg", ("oblique", 0, "deg")), ("oblique 20deg", ("oblique", 20, "deg")),
          ("oblique 10grad", ("oblique", 10, "grad"))]
STRETCH = [("condensed", "condensed"), ("75%", .75), ("ultra-expanded", "ultra-expanded"), ("112.5%", 1.125), ("0%", 0)]
WEIGHT = [("bold", "bold"), ("700", 700), ("normal", "normal"), ("lighter", "lighter")]
LINES = ["underline", "overline", "line-through"]
SIMPLE = {"font-kerning": ["auto", "normal", "none"],
          "font-variant-caps": ["normal", "small-caps", "petite-caps", "unicase"],
          "font-variant-position": ["normal", "sub", "super"],
          "text-decoration-style": ["solid", "double", "dotted", "dashed", "wavy"]}


def gen_decl(s):
    """[property, css text, {attribute: value}]: what the declaration sets."""
    k = s.int(0, 13)
    if k < 3:
        p = s.pick(["color", "background-color", "background", "caret-color", "text-decoration-color"])
        c = s.pick(COLOR)
        return [p, c, {p.replace("-", "_") if p != "background" else "background_color": list(RGBA[c])}]
    if k == 3:
        fams = s.list(lambda s: s.pick(sorted(FAMILIES)), 1, 3, 1.4)
        return ["font-family", ", ".join(fams), {"font_family": [FAMILIES[f] for f in fams]}]
    if k == 4:
        t, v = s.pick(SIZES)
        return ["font-size", t, {"font_size": v[0], "font_size_unit": v[1]}]
    if k == 5:
        t, v = s.pick(STYLES)
        return ["font-style", t, {"font_style": v[0], "font_style_angle": v[1], "font_style_angle_unit": v[2]}]
    if k == 6:
        t, v = s.pick(STRETCH)
        return ["font-stretch", t, {"font_stretch": v}]
    if k == 7:
        t, v = s.pick(WEIGHT)
        return ["font-weight", t, {"font_weight": v}]
    if k == 8:
        lines = s.sample(LINES, s.int(0, 3))
        return ["text-decoration-line", " ".join(lines) or "none", {"text_decoration_line": lines}]
    if k == 9:
        # shorthand
        lines = s.sample(LINES, s.int(1, 3))
        style = s.pick([None, "wavy", "double"])
        color = s.pick([None, "red", "#123456"])
        d = {"text_decoration_line": lines}
        if style:
            d["text_decoration_style"] = style
        if color:
            d["text_decoration_color"] = list(RGBA[color])
        return ["text-decoration", " ".join(s.shuffle(lines + [x for x in (style, color) if x])), d]
    if k == 10:
        if s.one_in(6):
            f = s.pick(["caption", "icon", "menu", "message-box", "small-caption", "status-bar"])
            return ["font", f, {"font_family": [f]}]
        d = {}
        parts = []
        if s.int(0, 1):
            t, v = s.pick(STYLES[1:])
            parts.append(t)
            d.update(font_style=v[0], font_style_angle=v[1], font_style_angle_unit=v[2])
        if s.int(0, 1):
            t, v = s.pick([w for w in WEIGHT if w[0] != "normal"])
            parts.append(t)
            d["font_weight"] = v
        if s.int(0, 2) == 0:
            t, v = s.pick([x for x in STRETCH if "%" not in x[0]])
            parts.append(t)
            d["font_stretch"] = v
        if s.int(0, 3) == 0:
            parts.append("small-caps")
            d["font_variant_caps"] = "small-caps"
        parts = s.shuffle(parts) if not any("deg" in p or "rad" in p or "turn" in p for p in parts) else parts
        t, v = s.pick(SIZES[:2] + [("14px", (14, "px"))])
        parts.append(t + s.pick(["", "", "/1.5", "/20px"]))
        d.update(font_size=v[0], font_size_unit=v[1])
        fams = s.list(lambda s: s.pick(sorted(FAMILIES)), 1, 2, 1.4)
        d["font_family"] = [FAMILIES[f] for f in fams]
        return ["font", " ".join(parts) + " " + ", ".join(fams), d]
    p = s.pick(sorted(SIMPLE))
    v = s.pick(SIMPLE[p])
    return [p, v, {p.replace("-", "_"): v}]


def gen_rule(s):
    """A rule of a theme: base (role, state) or class selector below .parce."""
    if s.one_in(4):
        sel = ["base", s.pick(["", "", "current-line", "selection", s.pick(["gutter", ".selection", ".window"])]), s.pick([None, None, "focus", "disabled"])]
    else:
        sel = ["action", s.sample(s.pick(ACTIONS).lower().split("."), s.pick([1, 1, 2, 3])) if s.int(0, 5) else [s.pick(WORDS)]]
    return {"sel": sel, "decls": [d + [s.one_in(8)] for d in s.list(gen_decl, 1, 4, 2.2)]}


def rule_text(r):
    if r["sel"][0] == "base":
        sel = ".parce"
        if r["sel"][1] == "selection":
            sel += (":" + r["sel"][2] if r["sel"][2] else "") + "::selection"
        else:
            sel += ("." + r["sel"][1].lstrip(".") if r["sel"][1] else "") + (":" + r["sel"][2] if r["sel"][2] else "")
    else:
        sel = ".parce " + "".join("." + c for c in r["sel"][1])
    return sel + " { " + "; ".join("{}: {}{}".format(p, t, " !important" if imp else "") for p, t, _, imp in r["decls"]) + "; }"


def gen(s):
    return {"rules": s.list(gen_rule, 0, 10, 6), "split": s.pick([None] * 4 + [s.int(0, 10)]), "asks": s.list(lambda s: s.pick(ACTIONS), 1, 5, 3),
            "bases": s.list(lambda s: [s.pick(["window", "selection", "current-line", "gutter"]), s.pick(["default", "focus", "disabled"])], 1, 4, 2)}


def expected(rules, applies, spec):
    """The attributes after all applying declarations, in order of precedence."""
    # a property that is declared again: only the one with the highest precedence counts
    best = {}
    for order, r in enumerate(rules):
        if applies(r["sel"]):
            for k, (p, _, d, imp) in enumerate(r["decls"]):
                key = (imp, spec(r["sel"]), order, k)
                if p not in best or best[p][0] < key:
                    best[p] = (key, d)
    out = {}
    for key, d in sorted(best.values(), key=lambda x: x[0]):
        out.update(d)
    return norm(out)


def norm(d):
    out = {}
    for k, v in d.items():
        if v is None or v in ([], ()):
            continue
        if isinstance(v, (list, tuple)) and v and not isinstance(v[0], str):
            v = tuple(v[:3]) + (round(v[3], 6),)
        elif isinstance(v, (list, tuple)):
            v = sorted(v) if k == "text_decoration_line" else list(v)
        elif isinstance(v, float):
            v = round(v, 9)
        out[k] = v
    return out


def attrs(f):
    names = ("color background_color caret_color text_decoration_color text_decoration_line text_decoration_style font_family font_kerning "
             "font_size font_size_unit font_stretch font_style font_style_angle font_style_angle_unit font_variant_caps "
             "font_variant_position font_weight").split()
    return norm({n: getattr(f, n) for n in names})


def action(name):
    import parce.action as A
    parts = name.split(".")
    x = getattr(A, parts[0])
    for p in parts[1:]:
        x = getattr(x, p)
    return x


def model_action(rules, name):
    words = set(name.lower().split("."))
    return expected(rules, lambda sel: sel[0] == "action" and set(sel[1]) <= words, lambda sel: 1 + len(sel[1]))


def model_base(rules, role, state):
    def applies(sel):
        if sel[0] != "base":
            return False
        if sel[1] and sel[1] != role:
            return False    # there are no elements with the class "selection" or "window"
        return sel[2] is None or sel[2] == state

    def spec(sel):
        return 1 + (sel[1] in ("current-line", "gutter")) + (sel[2] is not None), int(sel[1] == "selection")
    return expected(rules, applies, spec)


def check(case):
    from parce.theme import Theme
    rules = case["rules"]
    text = "\n".join(map(rule_text, rules))
    tmp = None
    try:
        if case["split"] is None:
            th = Theme(stylesheet=text)
        else:
            # the same rules from a file and a text
            tmp = tempfile.mkdtemp(prefix="vp-theme")
            name = os.path.join(tmp, "a.css")
            with open(name, "w", encoding="utf-8") as f:
                f.write("\n".join(map(rule_text, rules[:case["split"]])))
            th = Theme(name, stylesheet="\n".join(map(rule_text, rules[case["split"]:])))
            same(th.filenames(), [name], "filenames of the theme")
        return check_theme(case, th, rules, text)
    finally:
        if tmp:
            shutil.rmtree(tmp)


def check_theme(case, th, rules, text):
    seen = set()
    formats = []
    for name in case["asks"]:
        want = model_action(rules, name)
        f = th.textformat(action(name))
        same(attrs(f), want, "format of {} in {!r}".format(name, text))
        formats.append(f)
        seen.add(repr(want))
    for role, state in case["bases"]:
        want = model_base(rules, role, state)
        f = th.baseformat(role, state)
        same(attrs(f), want, "format of {} ({}) in {!r}".format(role, state, text))
        formats.append(f)
        seen.add(repr(want))
    for f in formats:
        check_write(f, text)
        for g in formats:
            check_algebra(f, g)
    return len(seen) > 2


GROUPS = [("font_size", "font_size_unit"), ("font_style", "font_style_angle", "font_style_angle_unit")]


def check_algebra(f, g):
    a, b = attrs(f), attrs(g)
    # in f + g everything that g sets is as in g, and the rest as in f
    want = dict(a)
    for group in GROUPS:
        if group[0] in b:
            for x in group:
                want.pop(x, None)
    if g.__dict__.get("text_decoration_line") == []:
        want.pop("text_decoration_line", None)
    want.update(b)
    same(attrs(f + g), want, "sum of {!r} and {!r}".format(f, g))
    # what is removed in f - g is not needed when drawn over g
    same(attrs(g + (f - g)), attrs(g + f), "{!r} over {!r}".format(f, g))
    # and the same for the written properties
    over = dict(g.css_properties())
    over.update((f - g).css_properties())
    whole = (g + f).css_properties()
    over.pop("text-decoration", None)   # a shorthand for three attributes
    whole.pop("text-decoration", None)
    same(over, whole, "CSS of {!r} over {!r}".format(f, g))
    need(not (f - f), "{!r} minus itself is {!r}", f, f - f)
    rest = attrs(f - g)
    for k, v in rest.items():
        same(v, a[k], "{} in {!r} - {!r}".format(k, f, g))
    for k in ("color", "background_color", "caret_color", "font_family", "font_kerning", "font_stretch", "font_weight",
              "font_variant_caps", "font_variant_position"):
        same(k in rest, k in a and a[k] != b.get(k), "{} present in {!r} - {!r}".format(k, f, g))
    same(f == g, f.__dict__ == g.__dict__, "equality")
    same(f != g, f.__dict__ != g.__dict__, "inequality")
    same(bool(f), bool(f.__dict__), "truth")


def css_tokens(text):
    """A small CSS value tokenizer: strings, idents, numbers, hex colors, commas."""
    out = []
    i = 0
    while i < len(text):
        c = text[i]
        if c in "\"'":
            i += 1
            buf = ""
            while True:
                need(i < len(text), "unclosed string in {!r}", text)
                x = text[i]
                if x == c:
                    break
                need(x not in "\n\r\f", "line break in string in {!r}", text)
                if x == "\\":
                    j = i + 1
                    h = ""
                    while j < len(text) and len(h) < 6 and text[j] in "0123456789abcdefABCDEF":
                        h += text[j]
                        j += 1
                    if h:
                        buf += chr(int(h, 16))
                        if j < len(text) and text[j] in " \t\n":
                            j += 1
                        i = j
                    else:
                        buf += text[j]
                        i = j + 1
                    continue
                buf += x
                i += 1
            out.append(("string", buf))
            i += 1
        elif c == " ":
            i += 1
        elif c == ",":
            out.append((",", c))
            i += 1
        else:
            j = i
            while j < len(text) and text[j] not in " ,\"'":
                j += 1
            w = text[i:j]
            if w[0] == "#":
                n = [int(w[k:k + 2], 16) for k in range(1, len(w), 2)]
                need(len(n) in (3, 4), "color {!r}", w)
                out.append(("color", tuple(n[:3]) + (n[3] / 255 if len(n) == 4 else 1,)))
            elif w[0].isdigit() or w[0] in "+." or w[0] == "-" and len(w) > 1 and w[1].isdigit():
                k = len(w)
                while k and not w[k - 1].isdigit():
                    k -= 1
                out.append(("number", (float(w[:k]), w[k:])))
            else:
                need(all(ch.isalnum() or ch in "-_" for ch in w), "not an identifier: {!r}", w)
                out.append(("ident", w))
            i = j
    return out


def close(a, b):
    return a[:3] == b[:3] and abs(a[3] - b[3]) <= .5 / 255 + 1e-6


def check_write(f, text):
    """The written CSS says the same as the format."""
    a = attrs(f)
    props = f.css_properties()
    want = set()
    for k, p in (("color", "color"), ("background_color", "background-color"), ("caret_color", "caret-color")):
        if k in a:
            want.add(p)
            t = css_tokens(props.get(p, ""))
            need(len(t) == 1 and t[0][0] == "color" and close(t[0][1], a[k]), "{}: {!r} written as {!r}", p, a[k], props.get(p))
    if any(k.startswith("text_decoration") for k in a):
        want.add("text-decoration")
        t = css_tokens(props.get("text-decoration", ""))
        words = [x for k, x in t if k == "ident"]
        exp = sorted(a.get("text_decoration_line", []) + ([a["text_decoration_style"]] if "text_decoration_style" in a else []))
        same(sorted(words), exp, "text-decoration")
        cols = [x for k, x in t if k == "color"]
        need(len(cols) == ("text_decoration_color" in a) and all(close(c, a["text_decoration_color"]) for c in cols), "text-decoration {!r} of {!r}",
             props["text-decoration"], f)
    if "font_family" in a:
        want.add("font-family")
        t = css_tokens(props.get("font-family", ""))
        same([x for k, x in t if k != ","], a["font_family"], "font-family as written: {!r}".format(props.get("font-family")))
        same([k for k, x in t][1::2], [","] * (len(a["font_family"]) - 1), "commas in font-family")
    if "font_size" in a:
        want.add("font-size")
        v = a["font_size"]
        same(css_tokens(props.get("font-size", "")), [("ident", v) if isinstance(v, str) else ("number", (float(v), a.get("font_size_unit", "")))],
             "font-size of {!r}".format(f))
    if "font_style" in a:
        want.add("font-style")
        exp = [("ident", a["font_style"])]
        if "font_style_angle" in a:
            exp.append(("number", (float(a["font_style_angle"]), a.get("font_style_angle_unit", ""))))
        same(css_tokens(props.get("font-style", "")), exp, "font-style of {!r}".format(f))
    if "font_stretch" in a:
        want.add("font-stretch")
        v = a["font_stretch"]
        same(css_tokens(props.get("font-stretch", "")), [("ident", v) if isinstance(v, str) else ("number", (v * 100, "%"))],
             "font-stretch of {!r}".format(f))
    for k in ("font_kerning", "font_variant_caps", "font_variant_position"):
        if k in a:
            want.add(k.replace("_", "-"))
            same(props.get(k.replace("_", "-")), a[k], k)
    if "font_weight" in a:
        want.add("font-weight")
        same(props.get("font-weight"), str(a["font_weight"]), "font-weight")
    same(set(props), want, "written properties of {!r}".format(f))


ASPECTS = [
    Aspect("themes", gen, check, quick=1200, thorough=15000, shards=5,
           rule="at least three different formats among the ones asked"),
]
