"""C16: a formatter gives every character the format its theme has for it, and keeps the text."""
from vp.core import Aspect, Skip, Violation, need, same
from vp import langs as B
from vp import treegen
from vp.treegen import Built


def gen_theme(s):
    return {"base": s.pick([[], [], ["B"], ["B2"]]), "add": s.int(0, 1), "unparsed": s.pick([[], [], ["U"], ["U2"]]),
            "map": {str(i): s.pick([[], ["x"], ["y"], ["x", "y"], ["z"]]) for i in range(8)}}


def gen(s):
    n = s.int(0, 5)
    themes = {}
    for i, k in enumerate(["default", "0", "1", "2"]):
        if k == "default" and not s.one_in(12) or k != "default" and s.int(0, 2) and n > 1:
            themes[k] = gen_theme(s)
    return {"tree": s.list(lambda s: treegen.gen_node(s, 4), s.pick([0, 2]), 12, 5), "themes": themes, "tail": s.int(0, 3),
            "ranges": [[s.pick([0, 0, s.int(0, 50), s.int(0, 15)]), s.pick([None, s.int(0, 60), s.int(0, 25)])]
                       for _ in range(6)], "ctx": s.int(0, 4)}


class FakeTheme:
    """Formats are tuples: an empty one is false, and they can be added."""

    def __init__(self, spec, tag):
        self.spec = spec
        self.tag = tag
        self.map = {repr(a): tuple(spec["map"][str(i)]) for i, a in enumerate(treegen.actions())}

    def baseformat(self, role="window", state="default"):
        b = tuple(self.spec["base"])
        return b if (role, state) == ("window", "default") else b and b + (role, state)

    def textformat(self, action):
        if repr(action) == "_Unparsed":
            return tuple(self.spec["unparsed"])
        f = self.map.get(repr(action), ())
        return f and f + (self.tag,)


def check(case):
    from parce.formatter import FormatContext, Formatter
    b = Built(case["tree"])
    text = "".join(b.chars) + "~" * case["tail"]
    langs = treegen.lang()
    themes = {}         # language -> (theme, add_baseformat)
    for k, spec in case["themes"].items():
        themes[None if k == "default" else langs[int(k)]] = FakeTheme(spec, "t" + k), bool(spec["add"])
    f = Formatter()
    for lang, (t, add) in themes.items():
        f.add_theme(t, lang, add)

    def pick(lang):
        return themes.get(lang, themes.get(None))

    def token_format(t):
        if None not in themes:
            return None
        th, add = pick(t.parent.lexicon.language)
        return ((th.baseformat() if add else ()) + th.textformat(t.action)) or None

    g = Formatter()
    g.copy_themes(f)
    for lang in list(langs) + [None]:
        th, add = themes.get(lang, (None, None))
        need(f.get_theme(lang) is th, "get_theme({!r})", lang)
        for a in treegen.actions():
            want = th and (((th.baseformat() if add else ()) + th.textformat(a)) or None)
            same(f.textformat(a, lang), want, "textformat({!r}, {!r})".format(a, lang))
        for role, state in (("window", "default"), ("selection", "default"), ("current-line", "focus")):
            same(f.baseformat(role, state, lang), th and (th.baseformat(role, state) or None),
                 "baseformat({!r}, {!r}, {!r})".format(role, state, lang))
    hits = 0
    for k, (start, end) in enumerate(case["ranges"]):
        z = len(text)
        start = min(start, z)
        if end is not None:
            end = min(end, z)
            if end < start:
                start, end = end, start
        stop = z if end is None else end
        log = []

        class Ctx(FormatContext):
            def start(self, fc):
                log.append(("start", fc.theme))

            def switch(self, fc):
                log.append(("switch", fc.theme))

            def done(self):
                log.append(("done",))
        tree = b.root
        if k == case["ctx"] and len(b.contexts) > 1:
            tree = b.contexts[-1]
        toks = [t for t in b.below[id(tree)] if t.end > start and t.pos < stop and stop > start]
        what = "range {}:{} of {!r}, text {!r}".format(start, end, tree, text)
        kw = {}
        if k % 2:
            kw["format_context"] = Ctx()
        fm = g if k == 3 else f
        ranges = list(fm.format_ranges(tree, start, end, **kw))
        # what formats are allowed per position
        allowed = {}
        gap_default = {None}
        if None in themes:
            th, add = themes[None]
            gap_default = {th.textformat(_unparsed()) or (add and th.baseformat()) or None}
        anygap = {None}
        for th, add in themes.values():
            anygap |= {th.textformat(_unparsed()) or None, th.baseformat() or None}
        last = toks[-1].end if toks else start
        for p in range(start, stop):
            if not toks or len(themes) != 1:
                allowed[p] = anygap
            elif p >= last and end is None:
                allowed[p] = gap_default | {None}
            else:
                allowed[p] = gap_default
        formatted = 0
        for t in toks:
            fmt = token_format(t)
            for p in range(max(start, t.pos), min(stop, t.end)):
                allowed[p] = {fmt}
            formatted += fmt is not None
        prev = start
        got = {}
        for r in ranges:
            need(prev <= r.pos < r.end <= stop, "{}: format range {!r} overlaps, is empty or sticks out ({!r})",
                 what, r, ranges)
            for p in range(r.pos, r.end):
                got[p] = r.textformat
            prev = r.end
        for p in range(start, stop):
            need(got.get(p) in allowed[p], "{}: format at {} is {!r}, expected {!r}", what, p, got.get(p), allowed[p])
        # the same as text
        pieces = list(fm.format_text(text, tree, start, end))
        same("".join(t for t, _ in pieces), text[start:stop], "formatted text of " + what)
        p = start
        for t, fmt in pieces:
            need(t, "{}: empty piece of text", what)
            for _ in t:
                same(fmt, got.get(p), "format of the text at {} of {}".format(p, what))
                p += 1
        if log:
            same(log[0][0], "start", "first call to the format context")
            same(log[-1], ("done",), "last call to the format context")
            cur = log[0][1]
            need(cur is (themes[None][0] if None in themes else None), "{}: started with {!r}", what, cur)
            seen = [cur]
            for e in log[1:-1]:
                same(e[0], "switch", "call to the format context")
                need(e[1] is not cur, "{}: switch to the same theme", what)
                cur = e[1]
                seen.append(cur)
            at = 0
            if None in themes:
                for t in toks:
                    th = pick(t.parent.lexicon.language)[0]
                    while at < len(seen) and seen[at] is not th:
                        at += 1
                    need(at < len(seen), "{}: format context was not switched to the theme of {!r}: {!r}", what, t, log)
        elif kw and toks:
            raise Violation(what + ": format context not started")
        if formatted > 1 and len(toks) < len(b.tokens):
            hits += 1
    return hits


def _unparsed():
    from parce.standardaction import StandardAction
    return StandardAction("_Unparsed")


THEMES = ["default", "dark", "debug", "pastel", "solarized-dark", "solarized-light", "terminal"]
_themes = {}


def theme(name):
    import parce
    if name not in _themes:
        _themes[name] = parce.theme_by_name(name)
    return _themes[name]


def gen_real(s):
    qual = s.pick(B.QUALNAMES + [q for q in B.QUALNAMES if B.name(q) in ("Html", "Xml", "Css", "LilyPond")] * 3)
    return {"lang": qual, "text": B.text(s, qual, 40, 14), "theme": s.pick(THEMES), "start": s.pick([0, 0, s.int(0, 60)]),
            "end": s.pick([None, s.int(0, 120)]), "simple": s.one_in(3)}


def document(case):
    import parce
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    lex = B.lexicon(case["lang"])
    return parce.Document(lex, case["text"], worker=Worker(TreeBuilder(lex)))


def check_real(case):
    from parce.document import Cursor
    from parce.formatter import Formatter, SimpleFormatter
    from vp.treecheck import flat_tokens
    d = document(case)
    text = case["text"]
    z = len(text)
    a = min(case["start"], z)
    e = None if case["end"] is None else max(a, min(case["end"], z))
    c = Cursor(d, a, e)
    stop = z if e is None else e
    if case["simple"]:
        f = SimpleFormatter()

        def fmt(action):
            names = []
            while action is not None:
                names.insert(0, repr(action).split(".")[-1].lower())
                action = action._parent
            return " ".join(names)
    else:
        th = theme(case["theme"])
        f = Formatter(th, lambda tf: tf.css_properties() or None)

        def fmt(action):
            return th.textformat(action).css_properties() or None
    want = {}
    n = 0
    # unparsed text, up to the last token or the end of the range
    gap = None if case["simple"] else fmt(_unparsed())
    tokens = list(flat_tokens(d.get_root(True)))
    inside = [t for t in tokens if t.end > a and t.pos < stop]
    loose = range(inside[-1].end if inside else a, stop) if e is None or not inside else ()
    for t in tokens:
        x = fmt(t.action)
        for p in range(t.pos, t.end):
            want[p] = x
        n += x is not None and t.end > a and t.pos < stop
    out = list(f.format_document(c))
    same("".join(t for t, _ in out), text[a:stop], "formatted text")
    p = a
    for t, x in out:
        for _ in t:
            if p not in loose or x is not None:
                same(x, want.get(p, gap), "format at {} of {!r}".format(p, text))
            p += 1
    return n > 2


ASPECTS = [
    Aspect("themes", gen, check, quick=1500, thorough=20000, shards=5,
           rule="a range with at least two formatted tokens, that is not the whole tree"),
    Aspect("bundled", gen_real, check_real, quick=500, thorough=8000, shards=3,
           rule="at least three formatted tokens in the range"),
]
