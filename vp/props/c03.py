"""C03: incremental rebuild equals a full rebuild, for every edit history."""
from vp import edits as E
from vp import langs as B
from vp import langgen as G
from vp.core import Aspect, Skip, Violation, need
from vp.locality import Flat, is_local
from vp.treecheck import check_tree, flat_tokens, nested, same_nested


def compare(builder, flat, what):
    """Compare the builder's tree with one built from scratch."""
    text = flat.text
    want = nested(flat.tree)
    got = nested(builder.root)
    need(builder.root.lexicon is flat.tree.lexicon, "{}: root lexicon is {!r}", what, builder.root.lexicon)
    if not same_nested(got, want):
        raise Violation("{}: incremental tree of {!r} is {!r}, built from scratch it is {!r}".format(
            what, text, got, want))
    check_tree(builder.root, text, what)
    opened = flat.lexicons
    need(len(builder.lexicons) == len(opened)
         and all(x is y for x, y in zip(builder.lexicons, opened)),
         "{}: open lexicons are {!r}, from scratch {!r}", what, builder.lexicons, opened)


def run_history(lexicon, text, history):
    from parce.treebuilder import TreeBuilder
    b = TreeBuilder(lexicon)
    root = b.root
    b.rebuild(text)
    flat = Flat(lexicon, text)
    compare(b, flat, "initial build")
    partial = 0
    for n, e in enumerate(history):
        text = E.apply(text, e)
        new = Flat(lexicon, text)
        if not is_local(flat, new, e[0], e[1], len(e[2])):
            # outside the domain; go on with a complete rebuild
            b.rebuild(text, lexicon)
            need(b.root is root, "the root context was replaced")
            compare(b, new, "after a complete rebuild")
        else:
            old = set(id(t) for t in flat_tokens(b.root))
            b.rebuild(text, False, e[0], e[1], len(e[2]))
            need(b.root is root, "the root context was replaced")
            compare(b, new, "after edit {} {!r}".format(n, e))
            kept = sum(1 for t in flat_tokens(b.root) if id(t) in old)
            if kept and len(old) >= 12:
                partial += 1
        flat = new
    return partial


def gen_local(s):
    local = s.int(0, 5)
    spec = G.language_spec(s, local=local != 0, ahead=local == 5)
    piece = G.piece_gen(spec)
    text = "".join(s.list(piece, 0, 60, 22))
    return {"spec": spec, "text": text, "edits": E.history(s, text, piece)}


@G.guard
def check_local(case):
    ref = G.RefLexer(case["spec"], max_steps=6000, anchored=True)
    text = case["text"]
    ref.run(text)
    for e in case["edits"]:
        text = E.apply(text, e)
        ref.run(text)
    lang = G.build_language(case["spec"])
    return run_history(lang.l0, case["text"], case["edits"])


def gen_bundled(s):
    qual = s.pick(B.QUALNAMES)
    piece = B.pieces(qual)
    text = "".join(s.list(piece, 0, 50, 20))
    return {"lang": qual, "text": text, "edits": E.history(s, text, piece)}


def check_bundled(case):
    return run_history(B.lexicon(case["lang"]), case["text"], case["edits"])


ASPECTS = [
    Aspect("local", gen_local, check_local, quick=1500, shards=8, thorough=40000,
           rule="a rebuild of a tree of at least 12 tokens kept some of the old tokens"),
    Aspect("bundled", gen_bundled, check_bundled, quick=1000, shards=8, thorough=30000,
           rule="a rebuild of a tree of at least 12 tokens kept some of the old tokens"),
]
