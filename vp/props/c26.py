"""C26: the registry finds the language that was registered."""
import fnmatch
import re

from vp.core import Aspect, Skip, Violation, need, same

QUAL = ["parce.lang.json.Json.root", "parce.lang.css.Css.root", "parce.lang.ini.Ini.root", "parce.lang.csv.Csv.root", "parce.lang.python.Python.root",
        "parce.lang.toml.Toml.root", "parce.lang.json.Json.array", "parce.lang.css.Css.selector"]
NAMES = ["Json", "json", "JSON", "Css", "css", "INI", "Ini", "Table", "x", "X", "Python", "python", "toml", "é", "É", "Csv"]
PATS = ["*.a", "*.b", "*.*", "Makefile", "*.[ab]", "x?", "*", "a.a", "*.A"]
FILES = ["x.a", "a.a", "y.b", "Makefile", "x1", "none", "z.c", "a", "b.A"]
MIMES = ["text/a", "text/b", "text/c"]
GUESS = ["a", "b+", "^x", r"\bword\b", "zz|y"]
WEIGHTS = [.125, .25, .5, .75, 1]


def gen_entry(s):
    return {"name": s.pick(NAMES), "desc": s.pick(["d1", "d2"]), "section": s.pick(["", "S", "T"]), "author": s.pick(["", "me", "you"]),
            "aliases": s.list(lambda s: s.pick(NAMES), 0, 3, .8),
            "filenames": s.list(lambda s: [s.pick(PATS), s.pick(WEIGHTS)], 0, 3, 1.2),
            "mimetypes": s.list(lambda s: [s.pick(MIMES), s.pick(WEIGHTS)], 0, 2, .8),
            "guesses": s.list(lambda s: [s.pick(GUESS), s.pick(WEIGHTS)], 0, 3, 1)}


def gen_reg(s):
    return s.list(lambda s: [s.pick(QUAL), gen_entry(s)], 0, 6, 3)


def gen_case(s):
    return {"regs": s.list(gen_reg, 1, 3, 1.6),
            "inherit": [s.one_in(3), s.one_in(2), s.pick(["", "we", "me"]), s.bool()],
            "names": s.list(lambda s: s.pick(NAMES), 1, 4, 2),
            "queries": s.list(lambda s: [s.pick([None, s.pick(FILES)]), s.pick([None, s.pick(MIMES)]), s.pick([None, s.text("abxy z", 0, 8), "a word", "x" * 4998 + " zz", "x" * s.int(4000, 5005) + s.pick([" word ", "zz", "bb", " y"])])], 1, 6, 3)}


def tuples(e):
    return dict(e, filenames=[tuple(x) for x in e["filenames"]], mimetypes=[tuple(x) for x in e["mimetypes"]], guesses=[tuple(x) for x in e["guesses"]])


def build(reglist):
    from parce.registry import Registry
    regs, models = [], []
    fallback = None
    for entries in reversed(reglist):
        r = Registry(fallback)
        m = {}
        for q, e in entries:
            r.add(q, **tuples(e))
            m[q] = e
        regs.insert(0, r)
        models.insert(0, m)
        fallback = r
    return regs, models


def model_qualname(m, name):
    for q, e in m.items():
        if e["name"] == name:
            return q
    for q, e in m.items():
        if name in e["aliases"]:
            return q
    low = name.lower()
    for q, e in m.items():
        if low == e["name"].lower() or low in [a.lower() for a in e["aliases"]]:
            return q
    for q, e in m.items():
        if low == q.split(".")[-2].lower():
            return q


def model_weights(m, filename, mimetype, contents):
    """{qualname: (filename weight, mimetype weight, contents weight)}"""
    r = {}
    for q, e in m.items():
        f = max((w for p, w in e["filenames"] if filename and fnmatch.fnmatchcase(filename, p)), default=0)
        t = max((w for p, w in e["mimetypes"] if mimetype == p), default=0)
        c = sum(w for p, w in e["guesses"] if contents and re.search(p, contents[:5000]))
        r[q] = (f, t, c)
    return r


def check_suggest(reg, m, filename, mimetype, contents):
    """Return the suggestion list after judging it, and whether it was decided by more than one."""
    got = reg.suggest(filename, mimetype, contents)
    what = "suggest({!r}, {!r}, {!r})".format(filename, mimetype, contents and contents[-20:])
    need(isinstance(got, list) and len(set(got)) == len(got) and set(got) <= set(m), "{} gives {!r}", what, got)
    w = model_weights(m, filename, mimetype, contents)
    by_name = {q for q, x in w.items() if x[0] or x[1]}
    if by_name:
        same(set(got), by_name, what)
        tops = sorted((w[q][0] + w[q][1] for q in by_name), reverse=True)
        top = {q for q in by_name if w[q][0] + w[q][1] == tops[0]}
        lex = max(w[q][:2] for q in by_name)
        if any(w[q][:2] == lex for q in top) and len({w[q][:2] for q in top}) == 1:
            # filename and mimetype weights agree about the best ones
            if len(top) == 1:
                need(got[0] in top, "{} gives {!r}, but {!r} has the highest weight", what, got, top)
                sums = [w[q][0] + w[q][1] for q in got]
                same(sums, sorted(sums, reverse=True), what + ": weights in order")
            else:
                # the contents decide between the best ones
                order = [w[q][2] for q in got if q in top]
                same(order, sorted(order, reverse=True), what + ": weights of the contents of the best ones")
    else:
        same(set(got), {q for q, x in w.items() if x[2]}, what)
        order = [w[q][2] for q in got]
        need(all(a >= b - 1e-9 for a, b in zip(order, order[1:])), "{} gives {!r} with weights {!r}", what, got, order)
    return got, len(got) > 1


def check(case):
    from parce.registry import Registry
    regs, models = build(case["regs"])
    multi = 0
    for reg, m in zip(regs, models):
        same(list(reg), list(m), "registered names")
        for q, e in m.items():
            same(reg[q]._asdict(), tuples(e), "entry {}".format(q))
        for name in case["names"]:
            same(reg.qualname(name), model_qualname(m, name), "qualname({!r})".format(name))
        d = {}
        for q, e in m.items():
            d.setdefault(e["section"], set()).add(q)
        same({k: set(v) for k, v in reg.by_section().items()}, d, "by_section()")
        c = reg.copy()
        need(c == reg and c is not reg and c.fallback is reg.fallback and isinstance(c, Registry), "the copy differs")
        c.clear()
        same(list(reg), list(m), "registered names after changing a copy")
    # find, with the fallback registries
    for name in case["names"]:
        want = next((q for q in (model_qualname(m, name) for m in models) if q), None)
        got = regs[0].find(name)
        same(got and got.qualname if hasattr(got, "qualname") else got and repr(got), want and (want if hasattr(got, "qualname") else ".".join(want.split(".")[-2:])),
             "find({!r})".format(name))
    for f, t, c in case["queries"]:
        first = None
        for reg, m in zip(regs, models):
            got, many = check_suggest(reg, m, f, t, c)
            multi += many
            if got and first is None:
                first = got[0]
        if f or t or c:
            lex = regs[0].find(filename=f, mimetype=t, contents=c)
            same(lex and repr(lex), first and ".".join(first.split(".")[-2:]), "find({!r}, {!r}, {!r})".format(f, t, c))
    # inheriting
    if case["inherit"][0] and models[0]:
        q, e = next(iter(models[0].items()))
        own = case["inherit"][1]
        author = case["inherit"][2]
        extra = dict(aliases=["extra"], filenames=[("*.extra", 1)], author=author)
        more = case["inherit"][3:] == [True]
        if more:
            extra.update(mimetypes=[("text/extra", .5)], guesses=[("extra", .5), ("x", .25)])
        if own:
            extra.update(name="Extra", desc="extra", section="E")
        regs[0].add("parce.lang.xml.Xml.root", inherit=q, **extra)
        need(q not in regs[0], "the inherited entry {!r} is still there", q)
        x = regs[0]["parce.lang.xml.Xml.root"]
        same([x.name, x.desc, x.section], ["Extra", "extra", "E"] if own else [e["name"], e["desc"], e["section"]], "inherited name, description, section")
        same(list(x.aliases), e["aliases"] + ["extra"], "inherited aliases")
        same(list(x.filenames), [tuple(p) for p in e["filenames"]] + [("*.extra", 1)], "inherited filenames")
        same(list(x.mimetypes), [tuple(p) for p in e["mimetypes"]] + extra.get("mimetypes", []), "inherited mimetypes")
        same(list(x.guesses), [tuple(p) for p in e["guesses"]] + extra.get("guesses", []), "inherited guesses")
        a = e["author"]
        same(x.author, a if not author or author == a else author if not a else a + " + " + author, "inherited author")
        for bad in (q, "not.there.Root"):
            try:
                regs[0].add("parce.lang.tcl.Tcl.root", inherit=bad, name="n", desc="d")
            except KeyError:
                pass
            else:
                raise Violation("inheriting from the absent entry {!r} does not fail".format(bad))
            need("parce.lang.tcl.Tcl.root" not in regs[0], "failed but registered")
    return multi > 0 or len(models) > 1


# --------------------------------------------------------------- bundled languages

def gen_bundled(s):
    return {"i": s.int(0, 10**6), "case": s.int(0, 2), "k": s.int(0, 10**6)}


def check_bundled(case):
    import parce
    from parce.registry import registry
    import itertools
    quals = list(registry)
    q = quals[case["i"] % len(quals)]
    e = registry[q]
    lex = registry.lexicon(q)
    need(isinstance(lex, type(parce.find("xml"))), "{!r} is no lexicon", q)
    same(repr(lex), ".".join(q.split(".")[-2:]), "the lexicon of {!r}".format(q))
    need(parce.find(e.name) is lex, "find({!r}) gives {!r}", e.name, parce.find(e.name))
    for a in e.aliases:
        r = parce.find(a)
        # another language can have it as its name, or also as an alias
        need(r is lex or any(a == f.name or a in f.aliases for p, f in registry.items() if registry.lexicon(p) is r), "find({!r}) gives {!r}", a, r)
    for variant in (e.name.upper(), e.name.lower(), e.name.title()):
        r = parce.find(variant)
        need(r is lex or any(variant.lower() == x.lower() for p, f in registry.items() if registry.lexicon(p) is r for x in [f.name] + list(f.aliases)),
             "find({!r}) gives {!r}", variant, r)
    for pat, w in e.filenames:
        fname = re.sub(r"\[(.).*?\]", r"\1", pat).replace("*", "name").replace("?", "q")
        if not fnmatch.fnmatchcase(fname, pat):
            continue
        names = registry.suggest(filename=fname)
        need(q in names, "{!r} is not suggested for {!r}: {!r}", q, fname, names)
        r = parce.find(filename=fname)
        best = max(wt for f in registry.values() for p, wt in f.filenames if fnmatch.fnmatchcase(fname, p))
        need(any(registry.lexicon(p) is r and any(wt == best and fnmatch.fnmatchcase(fname, pt) for pt, wt in f.filenames) for p, f in registry.items()),
             "find(filename={!r}) gives {!r}, which has not the highest weight", fname, r)
    for m, w in e.mimetypes:
        need(q in registry.suggest(mimetype=m), "{!r} is not suggested for {!r}", q, m)
    need(parce.find("no such language") is None, "a language is found for an unknown name")
    # the lexicon can be used
    parce.root(lex, "some text = 1\n")
    return True


ASPECTS = [
    Aspect("registry", gen_case, check, quick=800, thorough=10000, shards=2, rule="several languages are suggested, or there is a fallback registry"),
    Aspect("bundled", gen_bundled, check_bundled, quick=80, thorough=300, shards=1, rule="every registered language"),
]
