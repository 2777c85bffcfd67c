"""C02: lexing follows the documented rule semantics (reference lexer)."""
from vp import langgen as G
from vp.core import Aspect, Skip, need, same


def strategy(s):
    spec = G.language_spec(s)
    return {"lang": spec, "texts": s.list(lambda s: G.spec_text(s, spec), 1, 4),
            "root": s.pick([None, None, None, "a", "b"])}


def check(case):
    import parce
    from parce.lexer import Lexer
    from parce.target import Target
    from parce.treebuilder import TreeBuilder, build_tree
    spec = case["lang"]
    ref = G.RefLexer(spec)
    root = (0, case["root"])
    wanted = [ref.run(t, root) for t in case["texts"]]     # may Skip: run the reference first
    lang = G.build_language(spec)
    lexicon = lang.l0 if case["root"] is None else lang.l0(case["root"])
    interesting = False
    for text, (tree, events, opened) in zip(case["texts"], wanted):
        start = [lexicon]
        lexer = Lexer(start)
        got_events = list(lexer.events(text))
        need(len(start) == 1 and start[0] is lexicon, "the list given to Lexer was changed")
        same([list(e.lexemes) for e in got_events], events, "lexemes of {!r}".format(text))
        same([(int(l.name[1:]), l.arg) for l in lexer.lexicons], [root] + opened,
             "open lexicons after {!r}".format(text))
        for e in got_events:
            need(e.lexemes, "event without lexemes in {!r}", text)
            if e.target is not None:
                need(e.target.pop <= 0 and (e.target.pop or e.target.push),
                     "bad target {!r}", e.target)
        got = build_tree(lexicon, text)
        same(G.dump_tree(got), tree, "tree of {!r}".format(text))
        b = TreeBuilder(lexicon)
        b.rebuild(text)
        same(G.dump_tree(b.root), tree, "TreeBuilder tree of {!r}".format(text))
        same([(int(l.name[1:]), l.arg) for l in b.lexicons], opened, "open lexicons of TreeBuilder")
        contexts = sum(1 for _ in walk(tree)) - 1
        if len(events) >= 3 and (contexts or any(len(e) > 1 for e in events)):
            interesting = True
    return interesting


def walk(t):
    yield t
    for c in t[3]:
        if c[0] == "L":
            yield from walk(c)


ASPECTS = [
    Aspect("reference", strategy, check, quick=5000, shards=8, thorough=20000,
           rule="some text gives at least 3 events, and a nested context or a token group"),
]
ASSUMPTIONS = [
    "generated rule patterns never match the empty string unless the rule has a static target",
    "run-away default targets (documented as undetected) are skipped by the reference lexer",
]
