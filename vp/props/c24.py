"""C24: indenting gives every line in the range the indent its nesting asks for,
and changes nothing else."""
from vp.core import Aspect, Skip, Violation, need, same

# ------------------------------------------------------ a little indent language
#
# { INDENT   } DEDENT   a NO_DEDENT   ! NO_INDENT   _ NO_STRIP   B BLANK
# | ALIGN (with as many spaces as its column in the text)
# < PREFER_INDENT (three tabs)   > PREFER_INDENT (none)   ~ CURRENT_INDENT: only the first space
# = no event


def lead(text):
    return text[:len(text) - len(text.lstrip())]


def events_of(text):
    ind = lead(text)
    for i, c in enumerate(text[len(ind):]):
        if c == "{":
            yield "IN"
        elif c == "}":
            yield "DE"
        elif c == "a":
            yield "ND"
        elif c == "!":
            yield "NI"
        elif c == "_":
            yield "NS"
        elif c == "B":
            yield "BL"
        elif c == "|":
            yield "AL", " " * i
        elif c == "<":
            yield "PR", "\t\t\t"
        elif c == ">":
            yield "PR", ""
        elif c == "~":
            yield "CU", ind[:1]


def indenter(case):
    from parce import indent as I
    names = {"IN": I.INDENT, "DE": I.DEDENT, "ND": I.NO_DEDENT, "NI": I.NO_INDENT, "NS": I.NO_STRIP,
             "BL": I.BLANK, "AL": I.ALIGN, "PR": I.PREFER_INDENT, "CU": I.CURRENT_INDENT}

    class My(I.AbstractIndenter):
        def indent_events(self, block, prev_indents=()):
            for e in events_of(block.text()):
                if isinstance(e, tuple):
                    yield names[e[0]], e[1]
                else:
                    yield names[e]
    m = My()
    m.indent_string = case["istr"]
    m.indent_blank_lines = case["blank"]
    return m


class Line:
    """What a line asks for, read from the documentation of the events."""
    def __init__(self, text):
        self.text = text
        ev = list(events_of(text))
        plain = [e for e in ev if not isinstance(e, tuple)]
        self.frozen = "NI" in plain
        self.nostrip = "NS" in plain
        self.blank = "BL" in plain or not text.strip()
        self.prefer = None
        self.indent = "" if self.frozen else lead(text)
        self.start = self.end = 0
        self.opens = []
        at_start = True
        for e in ev:
            if e == "DE":
                if at_start:
                    self.start += 1
                elif self.opens:
                    self.opens.pop()
                else:
                    self.end += 1
            elif e in ("IN", "ND"):
                at_start = False
                if e == "IN":
                    self.opens.append(None)
            elif e[0] == "AL":
                if self.opens and self.opens[-1] is None:
                    self.opens[-1] = e[1]
            elif e[0] == "PR":
                self.prefer = e[1]
            elif e[0] == "CU":
                self.indent = e[1]


def model(lines, first, last, istr, blanks):
    """The lines after indenting those from first up to and including last."""
    out = list(lines)
    stack = [""]
    opens = []
    for n, text in enumerate(lines[:last + 1]):
        l = Line(text)
        for o in opens:
            stack.append(stack[-1] + (istr if o is None else o))
        opens = l.opens
        if any(o is not None for o in opens[1:]):
            raise Skip("alignment of a second level on the same line")
        for i in range(l.start):
            if len(stack) > 1:
                stack.pop()
        if l.frozen or (l.blank and not blanks):
            pass
        elif n < first:
            if l.prefer is None and not l.blank:
                stack[-1] = l.indent
        else:
            out[n] = (stack[-1] if l.prefer is None else l.prefer) + text[len(l.indent):]
        for i in range(l.end):
            if len(stack) > 1:
                stack.pop()
    return out


def gen_line(s, kinds):
    ws = s.pick(["", " ", "  ", "    ", "\t", "   ", "      "])
    k = s.int(0, 9)
    if k == 0:
        return s.pick(["", ws])
    if k <= 5:
        body = s.pick(["a", "{", "}", "a{", "a}", "a {", "}a{", "} {", "a{}", "{{", "}}", "a{{", "{ a }", "=", "=}", "={", "a }}", "aa a"])
    else:
        body = s.text(kinds, 1, 6).strip() or "a"
    return ws + body + s.pick(["", "", " ", "  ", "\t"])


def gen_doc(s, kinds="{}{}{}aa  !_B|<>~="):
    lines = s.list(lambda s: gen_line(s, kinds), 1, 12)
    n = len(lines)
    first = s.int(0, n - 1) if s.bool() else 0
    last = s.int(first, n - 1) if s.bool() else n - 1
    return {"lines": lines, "first": first, "last": last, "istr": s.pick(["  ", "    ", "\t", " "]),
            "blank": s.bool(), "tail": s.int(0, 3), "rich": s.bool()}


def setup(case):
    from parce import document
    text = "\n".join(case["lines"])
    if case.get("rich"):
        import parce
        d = parce.Document(None, text)
    else:
        d = document.Document(text)
    pos = 0
    starts = []
    for l in case["lines"]:
        starts.append(pos)
        pos += len(l) + 1
    p = starts[case["first"]]
    n = case["last"]
    e = starts[n] + len(case["lines"][n])
    if case["tail"] and n > case["first"] and case["lines"][n]:
        e = min(e, starts[n] + case["tail"])      # a partly selected last line
    if case["tail"] == 3 and n == len(case["lines"]) - 1:
        e = None
    from parce.document import Cursor
    return d, Cursor(d, p, e)


def check_indent(case):
    d, c = setup(case)
    ind = indenter(case)
    before = d.text()
    lines = case["lines"]
    want = model(lines, case["first"], case["last"], case["istr"], case["blank"])
    ind.indent(c)
    same(d.text(), "\n".join(want), "text after indent()")
    if d.text() != before:
        need(d.can_undo(), "indent() can be undone")
        d.undo()
        same(d.text(), before, "text after undoing indent()")
        need(not d.can_undo(), "indent() is one undo step")
        d.redo()
        same(d.text(), "\n".join(want), "text after redoing indent()")
    else:
        need(not d.can_undo(), "indent() that changes nothing leaves no undo step")
    if not any(c in l for l in lines for c in "~<>|"):
        d2, c2 = setup(dict(case, lines=want))
        ind.indent(c2)
        same(d2.text(), "\n".join(want), "text after indenting once more")
    return want != lines and any(l.strip("\n\t ={}a") == "" and l.strip() for l in lines)


def gen_single(s):
    case = gen_doc(s)
    case["chars"] = s.pick([None, None, " ", "\t", " a"])
    case["times"] = s.int(1, 3)
    return case


def check_shift(case):
    """increase_indent, decrease_indent and strip_trailing_blanks."""
    istr = case["istr"]
    lines = case["lines"]
    last = case["last"]
    while last > case["first"] and not lines[last]:
        last -= 1       # an empty line just after the range: not selected
    case = dict(case, last=last)
    d, c = setup(case)
    ind = indenter(case)
    sel = range(case["first"], case["last"] + 1)
    n = case["times"]
    for i in range(n):
        ind.increase_indent(c)
    want = list(lines)
    for k in sel:
        if not Line(lines[k]).frozen:
            want[k] = istr * n + want[k]
    # the cursor moves along: its start may end up after the new indent
    same(d.text(), "\n".join(want), "text after increase_indent()")
    if not any("~" in lines[k] for k in sel):
        c.select(sum(len(l) + 1 for l in want[:case["first"]]), sum(len(l) + 1 for l in want[:case["last"] + 1]) - 1)
        for i in range(n):
            ind.decrease_indent(c)
        same(d.text(), "\n".join(lines), "text after increase_indent() and decrease_indent()")
        # decreasing until nothing changes
        want = list(lines)
        for i in range(14):
            cur = d.text().split("\n")
            if case["last"] > case["first"] and not cur[case["last"]]:
                break
            for k in sel:
                l = Line(want[k])
                if not l.frozen and l.indent:
                    want[k] = want[k][len(istr if l.indent.startswith(istr) else l.indent):]
            c.select(sum(len(l) + 1 for l in cur[:case["first"]]), sum(len(l) + 1 for l in cur[:case["last"] + 1]) - 1)
            ind.decrease_indent(c)
            same(d.text(), "\n".join(want), "text after decrease_indent()")
    d, c = setup(case)
    ind.strip_trailing_blanks(c, *([] if case["chars"] is None else [case["chars"]]))
    want = list(lines)
    for k in sel:
        if not Line(lines[k]).nostrip:
            want[k] = lines[k].rstrip(case["chars"])
    same(d.text(), "\n".join(want), "text after strip_trailing_blanks()")
    if want != lines:
        d.undo()
        same(d.text(), "\n".join(lines), "text after undoing strip_trailing_blanks()")
    return len(sel) > 1


def gen_auto(s):
    """Lines with only openers, or closers at the start, never more closed than opened."""
    lines = []
    depth = 0
    n = s.int(1, 10)
    for i in range(n):
        ws = s.pick(["", "  ", "    ", " ", "\t", "   "])
        if s.one_in(6):
            lines.append(s.pick(["", ws]))
            continue
        close = s.int(0, min(depth, 3)) if s.bool() else 0
        opens = s.pick([0, 0, 0, 1, 1, 2, 3])
        if s.one_in(8):
            lines.append(ws + s.pick(["!", "a!", "!=", "B", "a B"]))
            continue
        if s.one_in(4):
            # closing after something else
            body = "a" + "}" * close
            opens = 0
            if close and s.bool():
                body = "}" + body[:-1]
        else:
            body = "}" * close + s.pick(["a", "a ", "", "a{}", "{a{}}"]) + "{" * opens
            if s.one_in(5) and opens == 1:
                body += "|"
        if not body:
            body = "a"
        depth += opens - close
        lines.append(ws + body)
    return {"lines": lines, "first": n - 1, "last": n - 1, "istr": s.pick(["  ", "    ", "\t"]), "blank": True,
            "tail": 0, "rich": s.bool(), "off": s.int(0, 3), "rest": s.list(lambda s: gen_line(s, "{}a"), 0, 3)}


def check_auto(case):
    lines = case["lines"] + case["rest"]
    case = dict(case, lines=lines)
    want = model(lines, case["first"], case["first"], case["istr"], True)
    if all(l.blank or l.frozen for l in map(Line, lines[:case["first"]])):
        # nothing before to derive an indent from: the line keeps its own
        want = list(lines)
    d, c = setup(case)
    c.pos += min(case["off"], len(lines[case["first"]]))
    c.end = c.pos
    before = d.text()
    indenter(case).auto_indent(c)
    same(d.text(), "\n".join(want), "text after auto_indent()")
    if d.text() != before:
        d.undo()
        same(d.text(), before, "text after undoing auto_indent()")
        need(not d.can_undo(), "auto_indent() is one undo step")
    return want != lines


def check_auto_only(case):
    """Whatever the lines, auto_indent() touches only the indent of its line."""
    d, c = setup(case)
    lines = case["lines"]
    k = case["first"]
    c.end = c.pos
    indenter(case).auto_indent(c)
    got = d.text().split("\n")
    l = Line(lines[k])
    same(len(got), len(lines), "number of lines after auto_indent()")
    for i, t in enumerate(lines):
        if i != k:
            same(got[i], t, "another line after auto_indent()")
    if l.frozen:
        same(got[k], lines[k], "a line that may not be indented")
    else:
        body = lines[k][len(l.indent):]
        need(got[k].endswith(body), "auto_indent() changed {!r} into {!r}", lines[k], got[k])
        new = got[k][:len(got[k]) - len(body)] if body else got[k]
        need(not new.strip(), "the new indent is not whitespace: {!r}", new)
        if l.prefer is not None:
            same(new, l.prefer, "the preferred indent")
    return got != lines


# ------------------------------------------------------ the bundled indenters

CSS_OPEN = ["h1 {", "@media print {", "@media screen {", "@media (x: y) { /* { */", "a:hover, b {", "h2 { /* } */", "p { color: red;", "#id > .cls {", 'a[b="}"] {']
CSS_PLAIN = ["/* { */", "h3 { color: blue; }", "", "/* text */", "a { b: url(x.png); } /* } */", "h4 {} h5 { color: red }", "@font-face { x: y; }"]
CSS_DECL = ["color: red;", "/* { */", "margin: 0 auto;", 'content: "{";', "", "/* } text */", "background: url(x.png);"]
CSS_CLOSE = ["}", "} /* { */", "}"]
LY_OPEN = [r"\relative {", "<<", r"\new Staff {", r"\score {", "music = {", r"\header {", r"\new Voice << % }", r"\repeat volta 2 {",
           r"\layout {", r"\relative c' { % {", r"\simultaneous {", r"\new StaffGroup <<", "{ % x"]
LY_DECL = [r'title = "{ <<"', "% {", "", 'composer = "x"', 'indent = 12', r"#(define x '(a b))"]
LY_PLAIN = ["c4 d e f", "% comment {", r"<c e g>2", "", r"\clef bass", r"c4 { d e }", "<< c d >>", "#(define x '(a b))",
            r"\time 3/4", r"c4( d) e\( f\)", r'c^"text }"', r"\key g \major", "%{ x } %}"]


def gen_real(s):
    kind = s.pick(["css", "lily", "html"])
    lines, depths = [], []
    stack = []

    def item(depth, rule=False):
        for i in range(s.int(1, 4)):
            if s.int(0, 2) and depth < 4 and not rule:
                inner = False
                if kind == "lily":
                    o = s.pick(LY_OPEN)
                    cl = ">>" if "<<" in o else "}"
                    if s.one_in(3):
                        cl += s.pick([" % {", "  % x", ""])
                    inner = o in (r"\header {", r"\layout {")
                else:
                    o, cl = s.pick(CSS_OPEN), s.pick(CSS_CLOSE)
                    inner = not o.startswith("@")
                lines.append(o)
                depths.append(depth)
                item(depth + 1, inner)
                lines.append(cl)
                depths.append(depth)
            else:
                lines.append(s.pick((LY_DECL if rule else LY_PLAIN) if kind == "lily" else CSS_DECL if rule else CSS_PLAIN))
                depths.append(depth)
    item(0)
    if kind == "html":
        lines[:0] = ["<html>", "<style>"]
        depths[:0] = [0, 0]
        lines += ["</style>", "<p>{ a", "</html>"]
        depths += [0, 0, 0]
    ws = [s.pick(["", " ", "  ", "\t", "     "]) for l in lines]
    return {"kind": kind, "lines": lines, "depths": depths, "ws": ws, "istr": s.pick(["  ", "    ", "\t"]),
            "first": s.int(0, len(lines) - 1) if s.one_in(3) else 0}


def check_real(case):
    import parce
    from parce.indent import Indenter
    from parce.document import Cursor
    if case["kind"] == "lily":
        from parce.lang.lilypond import LilyPond
        root = LilyPond.root
    elif case["kind"] == "html":
        from parce.lang.html import Html
        root = Html.root
    else:
        from parce.lang.css import Css
        root = Css.root
    first = case["first"]
    istr = case["istr"]
    # lines before the range are already well-indented
    ws = [istr * n for n in case["depths"][:first]] + case["ws"][first:]
    lines = [w + l for w, l in zip(ws, case["lines"])]
    want = [istr * n + l for n, l in zip(case["depths"], case["lines"])]
    d = parce.Document(root, "\n".join(lines))
    ind = Indenter()
    ind.indent_string = istr
    pos = sum(len(l) + 1 for l in lines[:first])
    ind.indent(Cursor(d, pos, None))
    same(d.text(), "\n".join(want), "text after indent()")
    before = len(d.text())
    ind.indent(Cursor(d, pos, None))
    same(d.text(), "\n".join(want), "text after indenting once more")
    # every single line, with auto_indent
    d = parce.Document(root, "\n".join(want))
    pos = 0
    for i, l in enumerate(want):
        if i and l.strip() and any(x.strip() for x in want[:i]):
            n = len(l) - len(l.lstrip())
            d[pos:pos + n] = case["ws"][i]
            ind.auto_indent(Cursor(d, pos, pos))
            same(d.text(), "\n".join(want), "text after auto_indent() of line {}".format(i))
        pos += len(l) + 1
    return max(case["depths"]) > 1


# ------------------------------------------------------ one Indent per language

PIECES = ["<p>text</p>", "<style>", "</style>", "<script>", "</script>", "a { b: c; }", "var x = 1;", "\n", "\n", " ", '<b style="color: red; margin: 0">',
          "</b>", "<!-- x -->", "&amp;", "\n\n", 'a { content: "x"; ', "}", "<style>a{}</style>"]


def gen_mixed(s):
    return {"text": "".join(s.list(lambda s: s.pick(PIECES), 2, 25)), "without": s.int(0, 3)}


def gen_mixed_own(s):
    return {"own": True, "without": s.int(0, 4),
            "text": "".join(s.list(lambda s: s.pick(["a", "a", "<", "[", "(", "]", "]", "\n", " ", "b"]), 2, 40))}


def own_languages():
    """Languages that enter each other, some of them derived from another."""
    from parce import Language, lexicon
    import parce.action as a

    class One(Language):
        @lexicon
        def root(cls):
            yield r"[ab]", a.Text
            yield r"<", a.Bracket, Two.root
            yield r"\[", a.Bracket, Three.root
            yield r"\(", a.Bracket, One.root
            yield r"\]", a.Bracket, -1

    class Two(One):
        pass

    class Three(Two):
        @lexicon
        def root(cls):
            yield r"\]", a.Bracket, -1
            yield r"\(", a.Bracket, One.root
            yield r"[<\[]", a.Bracket, cls.root
            yield r"a", a.Name
    return One.root


def check_mixed(case):
    """Every language's Indent gets the runs of tokens of its language, in order."""
    import itertools
    import parce
    from parce import indent as I
    from parce.lang.html import Html
    from parce.lang.css import Css
    d = parce.Document(own_languages() if case.get("own") else Html.root, case["text"])
    log = []
    ind = I.Indenter()

    class Rec(I.Indent):
        def __init__(self, lang):
            self.lang = lang

        def events(self, block, tokens, prev_indents):
            log.append((self.lang, list(tokens), block))
            yield I.NO_DEDENT
    langs = []
    for b in d.blocks():
        for t in b.tokens():
            l = t.parent.lexicon.language
            if l not in langs:
                langs.append(l)
    used = [l for i, l in enumerate(langs) if i != case["without"]]
    for l in langs:
        ind.add_indent(l, Rec(l) if l in used else None)
    runs = 0
    for b in d.blocks():
        del log[:]
        ind.indent_info(b)
        want = [(l, list(g)) for l, g in itertools.groupby(b.tokens(), lambda t: t.parent.lexicon.language)]
        runs = max(runs, len(want))
        want = [(l, g) for l, g in want if l in used]
        same(len(log), len(want), "number of runs of tokens")
        for (gl, gt, gb), (l, t) in zip(log, want):
            need(gl is l and gb == b, "the Indent of {} was called for {}", gl, l)
            need(len(gt) == len(t) and all(x is y for x, y in zip(gt, t)), "tokens {!r} were given, expected {!r}", gt, t)
    if case.get("own"):
        return runs > 1
    # languages without one of their own use the one of a base class
    from parce.lang.css import CssIndent

    class Derived(Css):
        pass
    need(type(I.Indenter().get_indent(Css)) is CssIndent, "the Indent for Css")
    need(type(I.Indenter().get_indent(Derived)) is CssIndent, "the Indent for a language derived from Css")
    return runs > 1


ASPECTS = [
    Aspect("mixed", gen_mixed, check_mixed, quick=120, shards=2, rule="a line with tokens of more than one language"),
    Aspect("languages", gen_mixed_own, check_mixed, quick=400, shards=1, rule="a line with tokens of more than one language"),
    Aspect("indent", gen_doc, check_indent, quick=1500, shards=4,
           rule="some line changed, and a line with an opener, closer or plain text is present"),
    Aspect("shift", gen_single, check_shift, quick=400, shards=2, rule="more than one line selected"),
    Aspect("auto", gen_auto, check_auto, quick=1200, shards=2, rule="the indent of the line changed"),
    Aspect("auto_only", gen_doc, check_auto_only, quick=800, shards=2, rule="the indent of the line changed"),
    Aspect("real", gen_real, check_real, quick=80, shards=4, rule="more than one level of nesting"),
]
