"""C15: a range of a tree contains exactly the tokens of that part of the text."""
from vp.core import Aspect, Skip, Violation, need, same
from vp import langgen, treegen
from vp.props.c13 import is_, seq
from vp.treegen import Built


def gen(s):
    return {"tree": treegen.gen_tree(s, s.int(0, 5), 12), "ctx": s.int(0, 1000),
            "ranges": [[s.pick([None, s.int(-1, 60), s.int(0, 20)]), s.pick([None, s.int(0, 60), s.int(0, 20)])]
                       for _ in range(12)]}


def check_range(b, c, r, want, what):
    if r is None:
        need(not want, "{}: no range, expected {!r}", what, want)
        return False
    seq(r.tokens(), want, "{}", what)
    if not want:
        return False
    same((r.pos, r.end), (want[0].pos, want[-1].end), "extent of " + what)
    below = b.below[id(r.ancestor)]
    need(all(any(t is u for u in below) for t in want), "{}: the ancestor does not contain all tokens", what)
    for trail, t in ((r.start_trail, want[0]), (r.end_trail, want[-1])):
        if trail:
            n = r.ancestor
            for i in trail:
                n = n[i]
            is_(n, t, "trail of {}", what)
    # the slices, and the moves between them
    nodes = []
    from parce.target import TargetFactory
    f = TargetFactory()
    first = want[0].parent if r.start_trail else r.ancestor
    stack = [id(x.lexicon) for x in [first] + b.anc(first)][::-1]
    for ctx, sl in r.slices(f):
        t = f.get()
        if t:
            need(t.pop <= 0 and -t.pop < len(stack), "{}: slices pop the root: {!r}", what, t)
            if t.pop:
                del stack[t.pop:]
            stack.extend(id(l) for l in t.push)
        same(stack, [id(x.lexicon) for x in [ctx] + b.anc(ctx)][::-1], "lexicon stack in a slice of " + what)
        nodes.extend(ctx[sl])
    flat = []
    for n in nodes:
        flat.extend([n] if n.is_token else b.below[id(n)])
    seq(flat, want, "slices of {}", what)
    return True


def check(case):
    b = Built(case["tree"])
    from parce.tree import Range
    hits = 0
    c = b.contexts[case["ctx"] % len(b.contexts)]
    for k, (start, end) in enumerate(case["ranges"]):
        kw = {}
        if start is not None:
            kw["start"] = start
        if end is not None:
            kw["end"] = end
        tree = b.root if k % 3 else c
        below = b.below[id(tree)]
        a = start if start is not None else 0
        want = [t for t in below if t.end > a and (end is None or t.pos < end and end > a)]
        r = tree.range(**kw) if k % 2 else Range.from_tree(tree, **kw)
        if check_range(b, tree, r, want, "range({}) of {!r}".format(kw, tree)) and len(want) > 1:
            hits += 1
    return hits > 1 and len(b.contexts) > 2


def gen_doc(s):
    spec = langgen.language_spec(s)
    return {"lang": spec, "text": langgen.spec_text(s, spec, 30, 14),
            "ranges": [[s.int(0, 40), s.pick([None, s.int(0, 40)])] for _ in range(8)]}


def check_doc(case):
    """Cursor.tokens() on a real document."""
    from parce.document import Cursor
    from parce import Document
    langgen.RefLexer(case["lang"], max_steps=4000).run(case["text"])     # may Skip
    lang = langgen.build_language(case["lang"])
    from parce.treebuilder import TreeBuilder
    from parce.work import Worker
    d = Document(lang.l0, case["text"], worker=Worker(TreeBuilder(lang.l0)))
    root = d.get_root(True)
    from vp.treecheck import flat_tokens
    tokens = list(flat_tokens(root))
    n = len(case["text"])
    hits = 0
    for start, end in case["ranges"]:
        a = min(start, n)
        e = None if end is None else max(a, min(end, n))
        c = Cursor(d, a, e)
        z = n if e is None else e
        want = [t for t in tokens if t.end > a and t.pos < z and z > a]
        seq(c.tokens(), want, "tokens of a cursor {}:{} in {!r}", a, e, case["text"])
        if len(want) > 1:
            hits += 1
    return hits > 0


ASPECTS = [
    Aspect("ranges", gen, check, quick=2500, thorough=40000, shards=4,
           rule="at least two ranges with two tokens or more, in a tree with sub-contexts"),
    Aspect("cursor", gen_doc, check_doc, quick=400, thorough=5000, shards=2,
           rule="at least one range of two tokens or more"),
]
