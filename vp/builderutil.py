"""Shared helpers for the TreeBuilder checks (C04, C05)."""
from .core import Violation, need


def actual_tokens(root):
    """Describe all tokens of a live tree: (pos, text, action, group, lexicon ids)."""
    out = []

    def walk(ctx, lexes):
        lexes += (id(ctx.lexicon),)
        for n in ctx:
            if n.is_context:
                walk(n, lexes)
            else:
                out.append((n.pos, n.text, n.action, n.group, lexes))
    walk(root, ())
    return out


def check_range(old, new, start, end, length, shift, what, edits=()):
    """Check that a reported range covers all differences between two trees.

    old, new: results of actual_tokens; shift: len(new text) - len(old text).
    """
    need(0 <= start <= end <= length, "{}: updated range {}-{} in a text of length {}",
         what, start, end, length)
    for s, e in edits:
        need(start <= s and end >= e, "{}: updated range {}-{} does not contain the edited text {}-{}",
             what, start, end, s, e)
    o = [t for t in old if t[0] + len(t[1]) <= start]
    n = [t for t in new if t[0] + len(t[1]) <= start]
    if o != n:
        raise Violation("{}: tokens before the updated range {}-{} differ: {!r} became {!r}".format(
            what, start, end, strip(o), strip(n)))
    o = [(t[0] + shift,) + t[1:] for t in old if t[0] + shift >= end]
    n = [t for t in new if t[0] >= end]
    if o != n:
        raise Violation("{}: tokens after the updated range {}-{} differ: {!r} became {!r}".format(
            what, start, end, strip(o), strip(n)))


def strip(tokens):
    return [t[:4] for t in tokens[:40]]


def covering(versions_edits):
    """Combine successive edits [start, removed, added length] to one covering edit."""
    s, r, a = versions_edits[0]
    for s2, r2, a2 in versions_edits[1:]:
        # current changed region in new text: s .. s + a
        lo = min(s, s2)
        hi = max(s + a, s2 + r2)        # region in the text before this edit
        # extend the first region to lo..hi
        r += (s - lo) + (hi - (s + a))
        a = (hi - lo) - r2 + a2
        s = lo
    return s, r, a
