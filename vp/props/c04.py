"""C04: the reported updated range covers every change of the tree."""
from vp import edits as E
from vp import langs as B
from vp import langgen as G
from vp.builderutil import actual_tokens, check_range
from vp.props import c05
from vp.core import Aspect, Skip, Violation, need, same


def run(lexicon, text, history):
    from parce.treebuilder import TreeBuilder
    b = TreeBuilder(lexicon)
    log = []
    for ev in ("started", "replace", "updated", "finished"):
        b.connect(ev, lambda *a, ev=ev: log.append((ev,) + a))
    b.rebuild(text)
    same((b.start, b.end), (0, len(text)), "updated range of the first build")
    partial = 0
    for n, e in enumerate(history):
        what = "edit {} {!r}".format(n, e)
        old = actual_tokens(b.root)
        text = E.apply(text, e)
        log.clear()
        b.rebuild(text, False, e[0], e[1], len(e[2]))
        new = actual_tokens(b.root)
        check_range(old, new, b.start, b.end, len(text), len(e[2]) - e[1], what,
                    [(e[0], e[0] + len(e[2]))])
        same([l[0] for l in log], ["started", "replace", "updated", "finished"], what + ": events")
        same(log[2][1:], (b.start, b.end), what + ": updated event")
        if (b.start > 0 or b.end < len(text)) and len(new) >= 12:
            partial += 1
    return partial


def gen_local(s):
    spec = G.language_spec(s, local=bool(s.int(0, 3)))
    piece = G.piece_gen(spec)
    text = "".join(s.list(piece, 0, 60, 22))
    return {"spec": spec, "text": text, "edits": E.history(s, text, piece)}


@G.guard
def check_generated(case):
    ref = G.RefLexer(case["spec"], max_steps=6000)
    text = case["text"]
    ref.run(text)
    for e in case["edits"]:
        text = E.apply(text, e)
        ref.run(text)
    lang = G.build_language(case["spec"])
    return run(lang.l0, case["text"], case["edits"])


def gen_bundled(s):
    qual = s.pick(B.QUALNAMES)
    piece = B.pieces(qual)
    text = "".join(s.list(piece, 0, 50, 20))
    return {"lang": qual, "text": text, "edits": E.history(s, text, piece)}


def check_bundled(case):
    return run(B.lexicon(case["lang"]), case["text"], case["edits"])


ASPECTS = [
    Aspect("generated", gen_local, check_generated, quick=1500, shards=8, thorough=40000,
           rule="a tree of at least 12 tokens was updated for a part of the text only"),
    Aspect("bundled", gen_bundled, check_bundled, quick=1500, shards=8, thorough=40000,
           rule="a tree of at least 12 tokens was updated for a part of the text only"),
    Aspect("queued", c05.gen_local, lambda case: c05.check_local(case, True), quick=1000, shards=8,
           thorough=40000, rule="two or more edits were processed together in a tree of more than 10 tokens"),
    Aspect("queued-bundled", c05.gen_bundled, lambda case: c05.check_bundled(case, True), quick=800, shards=8,
           thorough=30000, rule="two or more edits were processed together in a tree of more than 10 tokens"),
]
