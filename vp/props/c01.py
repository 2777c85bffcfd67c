"""C01: lexing any text with any bundled language."""
from vp import langs as B
from vp import langgen as G
from vp.core import Aspect, Skip, Violation, need, same
from vp.rulelexer import RuleLexer
from vp.treecheck import check_tree, events_tree, flat_tokens, nested, same_nested


def strategy(s):
    qual = s.pick(B.QUALNAMES)
    return {"lang": qual, "text": B.text(s, qual, 40, 14)}


def lex_all(lexicon, text):
    """Run all ways to lex; compare them; return (root, events)."""
    import parce
    from parce.treebuilder import TreeBuilder
    root = parce.root(lexicon, text)
    need(root.lexicon is lexicon, "root has lexicon {!r}", root.lexicon)
    n = check_tree(root, text)
    events = list(parce.events(lexicon, text))
    for e in events:
        need(len(e.lexemes) > 0, "event without lexemes")
    t = nested(root)
    need(same_nested(events_tree(events), t), "the events do not describe the tree of {!r}", text)
    b = TreeBuilder(lexicon)
    b.rebuild(text)
    need(same_nested(nested(b.root), t), "TreeBuilder and root() build a different tree for {!r}", text)
    again = parce.root(lexicon, text)
    need(same_nested(nested(again), t), "lexing {!r} twice gives different trees", text)
    return root, events, b, n


def check(case):
    lexicon = B.lexicon(case["lang"])
    root, events, b, n = lex_all(lexicon, case["text"])
    depth = max((sum(1 for _ in t.ancestors()) for t in flat_tokens(root)), default=0)
    return n >= 5 and depth >= 2 or n >= 15


def check_reference(case):
    from parce.treebuilder import TreeBuilder
    import parce
    lexicon = B.lexicon(case["lang"])
    text = case["text"]
    want, _, opened = RuleLexer().run(lexicon, text)
    root = parce.root(lexicon, text)
    got = nested(root)
    if not same_nested(got, want):
        raise Violation("tree of {!r} in {}: got {!r}, its rules say {!r}".format(
            text, case["lang"], got, want))
    b = TreeBuilder(lexicon)
    b.rebuild(text)
    need(len(b.lexicons) == len(opened) and all(x is y for x, y in zip(b.lexicons, opened)),
         "open lexicons after {!r}: got {!r}, expected {!r}", text, b.lexicons, opened)
    return len(list(flat_tokens(root))) >= 5


def gen_strategy(s):
    spec = G.language_spec(s)
    return {"spec": spec, "text": G.spec_text(s, spec, 40, 14)}


def check_generated(case):
    G.RefLexer(case["spec"]).run(case["text"])     # Skip run-away languages
    lang = G.build_language(case["spec"])
    root, events, b, n = lex_all(lang.l0, case["text"])
    return n >= 4


ASPECTS = [
    Aspect("bundled", strategy, check, quick=2500, shards=8, thorough=60000,
           rule="at least 5 tokens with a nested context, or at least 15 tokens"),
    Aspect("rules", strategy, check_reference, quick=500, shards=8, thorough=15000,
           rule="at least 5 tokens"),
    Aspect("generated", gen_strategy, check_generated, quick=1200, shards=4, thorough=30000,
           rule="at least 4 tokens"),
]
ASSUMPTIONS = ["texts of at most a few hundred characters",
               "termination is judged by a CPU limit of 60 s per text (normally milliseconds)"]
