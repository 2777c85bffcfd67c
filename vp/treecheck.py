"""Invariants of a tree, checked on the observable structure only."""
from .core import Violation, need


def check_tree(root, text, where="tree"):
    """Check that a tree is a faithful, well-formed tree of tokens of text."""
    last_end = 0
    count = 0

    def walk(ctx, path):
        nonlocal last_end, count
        group = None        # (next expected index) when inside a group
        for n in ctx:
            if n.parent is not ctx:
                raise Violation("{}: parent of {!r} is not the context it is in".format(where, n))
            if n.is_context:
                need(not n.is_token, "node is both token and context")
                if group is not None:
                    raise Violation("{}: token group interrupted by a context in {!r}".format(where, ctx))
                if not len(n):
                    raise Violation("{}: empty context {!r}".format(where, n))
                if n.lexicon is None:
                    raise Violation("{}: context without lexicon".format(where))
                walk(n, path + 1)
            else:
                need(n.is_token, "node is neither token nor context")
                count += 1
                if not n.text:
                    raise Violation("{}: empty token at {}".format(where, n.pos))
                if n.pos < last_end:
                    raise Violation("{}: token {!r} overlaps or precedes the previous one ending at {}".format(
                        where, n, last_end))
                if text[n.pos:n.pos + len(n.text)] != n.text:
                    raise Violation("{}: token {!r} is not the text at {} ({!r})".format(
                        where, n.text, n.pos, text[n.pos:n.pos + len(n.text)]))
                if n.end != n.pos + len(n.text):
                    raise Violation("{}: wrong end of token {!r}".format(where, n))
                last_end = n.end
                g = n.group
                if group is None:
                    if g is not None:
                        if g != 0:
                            raise Violation("{}: group of {!r} starts with {}".format(where, n, g))
                        group = 1
                else:
                    if g is None or abs(g) != group:
                        raise Violation("{}: group index of {!r} is {!r}, expected {}".format(where, n, g, group))
                    group = None if g < 0 else group + 1
        if group is not None:
            raise Violation("{}: unfinished token group in {!r}".format(where, ctx))

    need(root.parent is None, "{}: the root has a parent", where)
    walk(root, 0)
    return count


def events_tree(events):
    """Rebuild the nested structure from events, independent of parce.tree."""
    root = []
    stack = [(None, root)]
    for target, lexemes in events:
        if target:
            if target.pop:
                need(-target.pop < len(stack), "event pops the root: {!r}", target)
                del stack[target.pop:]
            for l in target.push:
                c = []
                stack[-1][1].append((l, c))
                stack.append((l, c))
        n = len(lexemes)
        for i, (p, t, a) in enumerate(lexemes):
            stack[-1][1].append((p, t, a, None if n == 1 else i if i < n - 1 else -i))
    return root


def nested(ctx):
    return [(n.lexicon, nested(n)) if n.is_context else (n.pos, n.text, n.action, n.group) for n in ctx]


def same_nested(a, b):
    """Compare two nested structures; lexicons by identity."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if len(x) != len(y):
            return False
        if len(x) == 2:
            if x[0] is not y[0] or not same_nested(x[1], y[1]):
                return False
        elif x != y:
            return False
    return True


def flat_tokens(ctx):
    """All tokens by plain recursion."""
    for n in ctx:
        if n.is_context:
            yield from flat_tokens(n)
        else:
            yield n


def all_nodes(ctx):
    """All descendant nodes in document order (contexts before their children)."""
    for n in ctx:
        yield n
        if n.is_context:
            yield from all_nodes(n)
