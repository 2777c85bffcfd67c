"""Is an edit local for a language?

Incremental re-lexing is only meaningful when the language decides locally.
This module judges, from two trees built from scratch, whether an edit is
inside that domain:

head: tokens more than HEAD tokens before the edit are the same in both trees;
tail: whenever a token after the edit occurs in both trees with the same text,
      action, (shifted) position and open lexicons, everything after it is the
      same in both trees as well.
"""
HEAD = 8


class Flat:
    """A flattened description of a tree built from scratch."""

    def __init__(self, lexicon, text):
        from parce.lexer import Lexer
        from parce.treebuilder import build_tree
        lx = Lexer([lexicon])
        if lexicon is not None:
            for _ in lx.events(text):
                pass
        self.text = text
        self.open = [id(l) for l in lx.lexicons[1:]]
        self.lexicons = lx.lexicons[1:]
        self.tree = build_tree(lexicon, text)
        self.tokens = []        # (pos, text, action, group, lexicon ids, shared)
        self._prev = ()
        self._walk(self.tree, (), ())

    def _walk(self, ctx, path, lexes):
        path += (ctx,)
        lexes += (id(ctx.lexicon),)
        for n in ctx:
            if n.is_context:
                self._walk(n, path, lexes)
            else:
                shared = 0
                for a, b in zip(path, self._prev):
                    if a is not b:
                        break
                    shared += 1
                self._prev = path
                self.tokens.append((n.pos, n.text, n.action, n.group, lexes, shared))


def is_local(old, new, start, removed, added):
    """old, new: Flat."""
    o, n = old.tokens, new.tokens
    # head
    k = 0
    while k < len(o) and o[k][0] + len(o[k][1]) <= start:
        k += 1
    k = max(0, k - HEAD)
    if o[:k] != n[:k]:
        return False
    # tail: how many tokens at the end are the same
    shift = added - removed
    i, j = len(o), len(n)
    end = start + added
    same_end = old.open == new.open
    limit = None
    if same_end:
        while i and j and n[j - 1][0] >= end:
            a, b = o[i - 1], n[j - 1]
            if a[0] + shift != b[0] or a[1:5] != b[1:5]:
                break
            i -= 1
            j -= 1
            if a[5] != b[5]:
                break       # this one is still the same, but not its predecessor
    # tokens n[j:] have an identical continuation; earlier ones must not look the same
    index = {(t[0] + shift, t[1], t[2], t[4]) for t in o if t[0] >= start + removed}
    for t in n[:j]:
        if t[0] >= end and (t[0], t[1], t[2], t[4]) in index:
            return False
    return True
