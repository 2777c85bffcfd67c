"""C13: navigating and searching a tree agrees with plain enumeration of it."""
import io

from vp.core import Aspect, Violation, need, same
from vp import treegen
from vp.treegen import Built

STYLES = ["ascii", "round", "square", "double", "thick", "flat"]


def gen(s):
    return {"tree": treegen.gen_tree(s, s.int(0, 6)), "picks": [s.int(0, 10000) for _ in range(6)],
            "pos": [s.int(-1, 80) for _ in range(4)], "style": s.pick(STYLES)}


def is_(got, want, what, *args):
    if got is not want:
        raise Violation("{}: got {!r}, expected {!r}".format(what.format(*args), got, want))


def seq(got, want, what, *args):
    got = list(got)
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        raise Violation("{}: got {!r}, expected {!r}".format(what.format(*args), got, want))


def check_node(b, n):
    path = b.path[id(n)]
    anc = b.anc(n)
    w = repr(n)
    is_(n.parent, anc[0] if anc else None, "parent of {}", w)
    is_(n.root(), b.root, "root of {}", w)
    same(n.depth(), len(path), "depth of " + w)
    seq(n.ancestors(), anc, "ancestors of {}", w)
    same(n.is_token, n not in b.contexts, "is_token")
    for i, a in enumerate(anc):
        seq(n.ancestors(a), anc[:i + 1], "ancestors of {} upto {!r}", w, a)
    got = list(n.ancestors_with_index())
    need(len(got) == len(path) and all(c is d and i == j for (c, i), (d, j) in zip(got, reversed(path))),
         "ancestors_with_index of {}: {!r}", w, got)
    pos, end = b.span(n)
    same(n.pos, pos, "pos of " + w)
    same(n.end, end, "end of " + w)
    if path:
        p, i = path[-1]
        same(n.parent_index(), i, "parent_index of " + w)
        same(bool(n.is_first()), i == 0, "is_first of " + w)
        same(bool(n.is_last()), i == len(p) - 1, "is_last of " + w)
        sib = list(list.__iter__(p))
        is_(n.left_sibling(), sib[i - 1] if i else None, "left_sibling of {}", w)
        is_(n.right_sibling(), sib[i + 1] if i + 1 < len(sib) else None, "right_sibling of {}", w)
        seq(n.left_siblings(), sib[:i][::-1], "left_siblings of {}", w)
        seq(n.right_siblings(), sib[i + 1:], "right_siblings of {}", w)
    # tokens before/after
    fwd = [t for t in b.tokens if t.pos >= end] if (path or not b.tokens) else []
    bwd = [t for t in reversed(b.tokens) if t.pos < pos]
    if n.is_context and not b.below[id(n)]:
        fwd = bwd = []
    seq(n.forward(), fwd, "forward from {}", w)
    seq(n.backward(), bwd, "backward from {}", w)
    is_(n.next_token(), fwd[0] if fwd else None, "next_token of {}", w)
    is_(n.previous_token(), bwd[0] if bwd else None, "previous_token of {}", w)
    for a in anc:
        inside = set(map(id, b.below[id(a)]))
        f = [t for t in fwd if id(t) in inside]
        g = [t for t in bwd if id(t) in inside]
        seq(n.forward(a), f, "forward from {} upto {!r}", w, a)
        seq(n.backward(a), g, "backward from {} upto {!r}", w, a)
        if n.is_token:
            seq(n.forward_including(a), [n] + f, "forward_including from {} upto {!r}", w, a)
            seq(n.backward_including(a), [n] + g, "backward_including from {} upto {!r}", w, a)
    if n.is_token:
        seq(n.forward_including(), [n] + fwd, "forward_including from {}", w)
        seq(n.backward_including(), [n] + bwd, "backward_including from {}", w)
        same(len(n), len(n.text), "len of " + w)
        need(n == n.text and not (n != n.text), "token {} is not equal to its text", w)
        need(n != n.text + "x" and not (n == n.text + "x"), "token {} is equal to another text", w)
        same("{}".format(n), n.text, "format of " + w)
        same("{:>9}".format(n), n.text.rjust(9), "format of " + w)
        grp = b.group.get(id(n))
        if grp is None:
            is_(n.group, None, "group of {}", w)
        else:
            seq(n.get_group(), grp, "get_group of {}", w)
            is_(n.get_group_start(), grp[0], "get_group_start of {}", w)
            is_(n.get_group_end(), grp[-1], "get_group_end of {}", w)
    else:
        below = b.below[id(n)]
        seq(n.tokens(), below, "tokens of {}", w)
        seq(n.tokens(True), below[::-1], "reversed tokens of {}", w)
        is_(n.first_token(), below[0] if below else None, "first_token of {}", w)
        is_(n.last_token(), below[-1] if below else None, "last_token of {}", w)
        same(n.is_root(), not path, "is_root of " + w)
        # the distance to the farthest token
        same(n.height(), max((len(b.path[id(t)]) - len(path) for t in below), default=0), "height of " + w)
        for x in ("a", "b", "foo", "zz"):
            same(x in n, any(m.is_token and m.text == x for m in list.__iter__(n)), "{!r} in {}".format(x, w))
        for l in treegen.lexicons():
            eq = n.lexicon.fullname == l.fullname
            need(bool(n == l) == eq and bool(n != l) != eq, "{} compared with {!r}", w, l)
            same(l in n, any(m.is_context and m.lexicon.fullname == l.fullname for m in list.__iter__(n)),
                 "{!r} in {}".format(l, w))


def check_pos(b, c, pos):
    """The find methods of a context."""
    w = "{!r}, position {}".format(c, pos)
    kids = list(list.__iter__(c))
    below = b.below[id(c)]

    def trail(t):
        p = b.path[id(t)]
        return [i for _, i in p[len(b.path[id(c)]):]]
    i = next((i for i, n in enumerate(kids) if b.span(n)[1] > pos), -1)
    same(c.find(pos), i, "find in " + w)
    i = next((i for i, n in reversed(list(enumerate(kids))) if b.span(n)[0] < pos), -1)
    same(c.find_left(pos), i, "find_left in " + w)
    t = next((t for t in below if t.pos + len(t.text) > pos), None)
    is_(c.find_token(pos), t, "find_token in {}", w)
    tok, tr = c.find_token_with_trail(pos)
    is_(tok, t, "find_token_with_trail in {}", w)
    same(None if tr is None else list(tr), trail(t) if t is not None else None, "trail of find_token_with_trail in " + w)
    t = next((t for t in reversed(below) if t.pos < pos), None)
    is_(c.find_token_left(pos), t, "find_token_left in {}", w)
    tok, tr = c.find_token_left_with_trail(pos)
    is_(tok, t, "find_token_left_with_trail in {}", w)
    same(None if tr is None else list(tr), trail(t) if t is not None else None,
         "trail of find_token_left_with_trail in " + w)
    is_(c.find_token_after(pos), next((t for t in below if t.pos >= pos), None), "find_token_after in {}", w)
    is_(c.find_token_before(pos), next((t for t in reversed(below) if t.pos + len(t.text) <= pos), None),
        "find_token_before in {}", w)
    deepest = c
    for d in b.contexts:
        if d is not c and any(a is c for a in b.anc(d)):
            x, y = b.span(d)
            if x <= pos < y:
                deepest = d     # document order: the last one is the deepest
    is_(c.find_context(pos), deepest, "find_context in {}", w)


def shape(n):
    if n.is_token:
        return (type(n).__name__, n.pos, n.text, n.action, n.group)
    return (type(n).__name__, id(n.lexicon), [shape(m) for m in list.__iter__(n)])


def parents_ok(n, parent):
    is_(n.parent, parent, "parent in a copy ({!r})", n)
    if n.is_context:
        for m in list.__iter__(n):
            parents_ok(m, n)


def check_pair(b, m, n):
    """Relations of two nodes."""
    w = "{!r} and {!r}".format(m, n)
    anc_m, anc_n = b.anc(m), b.anc(n)
    same(m.is_ancestor_of(n), any(a is m for a in anc_n), "is_ancestor_of: " + w)
    am = ([m] if m.is_context else []) + anc_m
    an = ([n] if n.is_context else []) + anc_n
    common = next(x for x in an if any(x is y for y in am))
    is_(m.common_ancestor(n), common, "common_ancestor of {}", w)
    need((m == n) == (m is n), "equality of nodes: {}", w)
    need((m != n) == (m is not n), "inequality of nodes: {}", w)
    if m.is_token and n.is_token:
        la = [id(c.lexicon) for c in anc_m]
        lb = [id(c.lexicon) for c in anc_n]
        same(bool(m.state_matches(n)), la == lb, "state_matches of {}".format(w))
        same(bool(m.equals(n)), la == lb and m.text == n.text and m.action is n.action, "equals of {}".format(w))
        if m.pos <= n.pos:
            ctx, ta, tb = m.common_ancestor_with_trail(n)
            is_(ctx, common, "common_ancestor_with_trail of {}", w)
            k = len(b.path[id(common)])
            same(list(ta), [i for _, i in b.path[id(m)][k:]], "trail of the first of " + w)
            same(list(tb), [i for _, i in b.path[id(n)][k:]], "trail of the second of " + w)
            want = [t for t in b.tokens if m.pos <= t.pos <= n.pos]
            seq(m.forward_until_including(n), want, "forward_until_including of {}", w)
            r = m.range(n)
            seq(r.tokens(), want, "range of {}", w)
            same((r.pos, r.end), (m.pos, n.pos + len(n.text)), "range of " + w)


def check_dump(b, n, style):
    from parce.tree import DUMP_STYLES
    f = io.StringIO()
    n.dump(f, style)
    d = DUMP_STYLES[style]
    want = []

    def walk(m, prefix, lead):
        want.append(prefix + lead + repr(m))
        if m.is_context:
            kids = list(list.__iter__(m))
            below = "" if m is n else prefix + d[1 if lead == d[3] else 0]
            for i, k in enumerate(kids):
                walk(k, below, d[3 if i == len(kids) - 1 else 2])
    walk(n, "", "")
    same(f.getvalue(), "".join(l + "\n" for l in want), "dump of {!r}".format(n))


def check(case):
    b = Built(case["tree"])
    for n in b.nodes:
        check_node(b, n)
    end = b.pos
    some = [b.nodes[p % len(b.nodes)] for p in case["picks"]]
    for c in b.contexts[:25]:
        x, y = b.span(c)
        for pos in sorted({0, x - 1, x, x + 1, (x + y) // 2, y - 1, y, y + 1, end} | set(case["pos"])):
            check_pos(b, c, pos)
    for m in some:
        for n in some:
            check_pair(b, m, n)
    for n in some[:2]:
        check_dump(b, n, case["style"])
        before = shape(n)
        c = n.copy()
        need(c is not n, "copy returns the node itself")
        same(shape(c), before, "copy of {!r}".format(n))
        parents_ok(c, None)
        p = b.root
        c = n.copy(p)
        is_(c.parent, p, "parent of the copy of {!r}", n)
        same(shape(n), before, "node after copying")
    # two trees do not mix
    other = Built(case["tree"])
    for m in some[:3]:
        for n in other.tokens[:3]:
            need(not m.is_ancestor_of(n), "node is an ancestor of a node in another tree")
            is_(m.common_ancestor(n), None, "common ancestor of nodes of different trees")
            if m.is_token:
                need(m.range(n) is None, "a range of tokens of different trees")
                la = [id(c.lexicon) for c in b.anc(m)]
                lb = [id(c.lexicon) for c in other.anc(n)]
                same(bool(m.state_matches(n)), la == lb, "state_matches across trees")
    # delete
    victims = [n for n in some if n is not b.root]
    if victims:
        n = victims[0]
        gone = n
        keep = None
        for c, i in reversed(b.path[id(n)]):
            if len(c) > 1:
                keep = c
                break
            gone = c
        dead = {id(n)} if n.is_token else set(map(id, b.below[id(n)]))
        want = [t for t in b.tokens if id(t) not in dead]
        alive = [m for m in b.contexts if any(id(t) not in dead for t in b.below[id(m)]) or m is b.root]
        is_(n.delete(), keep, "delete of {!r}", n)
        seq(treewalk(b.root), [m for m in b.nodes if m.is_token and id(m) not in dead
                               or m.is_context and any(m is a for a in alive)], "nodes after delete of {!r}", n)
        seq(b.root.tokens(), want, "tokens after delete of {!r}", n)
    return len(b.contexts) > 2 and len(b.tokens) > 4


def treewalk(c):
    yield c
    for n in list.__iter__(c):
        if n.is_context:
            yield from treewalk(n)
        else:
            yield n


def gen_deep(s):
    return {"depth": s.pick([200, 1500, 3000, 5000]), "every": s.int(1, 7), "tail": s.int(0, 3)}


def check_deep(case):
    """Very deep trees (recursion limits)."""
    from parce.tree import Context, Token
    L = treegen.lexicons()
    A = treegen.actions()
    root = ctx = Context(L[0], None)
    contexts = [root]
    tokens, after = [], []
    pos = 0
    depth = case["depth"]
    for i in range(depth):
        if i % case["every"] == 0:
            t = Token(ctx, pos, "ab", A[0])
            ctx.append(t)
            tokens.append(t)
            pos += 2
        c = Context(L[i % 5], ctx)
        ctx.append(c)
        contexts.append(c)
        ctx = c
    t = Token(ctx, pos, "end", A[1])
    ctx.append(t)
    deepest = t
    tokens.append(t)
    pos += 3
    for c in reversed(contexts):
        if case["tail"] and len(contexts) % (case["tail"] + 1) == 0:
            t = Token(c, pos, "z", A[0])
            c.append(t)
            tokens.append(t)
            pos += 1
    seq(root.tokens(), tokens, "tokens")
    seq(root.tokens(True), tokens[::-1], "reversed tokens")
    same(root.height(), depth + 1, "height")
    same((root.pos, root.end), (0, pos), "extent")
    is_(root.last_token(), tokens[-1], "last_token")
    is_(root.find_token(deepest.pos), deepest, "find_token")
    tok, trail = root.find_token_with_trail(deepest.pos)
    same(len(trail), depth + 1, "length of the trail")
    is_(root.find_token_left(deepest.end), deepest, "find_token_left")
    is_(root.find_token_after(deepest.pos), deepest, "find_token_after")
    is_(root.find_token_before(deepest.end), deepest, "find_token_before")
    is_(root.find_context(deepest.pos), contexts[-1], "find_context")
    same(deepest.depth(), depth + 1, "depth")
    is_(deepest.root(), root, "root")
    k = tokens.index(deepest)
    seq(deepest.forward(), tokens[k + 1:], "forward")
    seq(deepest.backward(), tokens[:k][::-1], "backward")
    seq(root.query.all.tokens, tokens, "query all tokens")
    seq(root.query.allcontexts, contexts, "query allcontexts")
    seq(tokens[0].range(deepest).tokens(), tokens[:k + 1], "range")
    c = root.copy()
    n, m = root, c
    while True:
        same(len(m), len(n), "copied context")
        same([(type(x), x.pos, getattr(x, "text", None)) for x in m if x.is_token],
             [(type(x), x.pos, getattr(x, "text", None)) for x in n if x.is_token], "copied context")
        nn = [x for x in n if x.is_context]
        mm = [x for x in m if x.is_context]
        if not nn:
            break
        n, m = nn[0], mm[0]
        is_(m.lexicon, n.lexicon, "lexicon of a copied context")
    # take the tree down without deep recursion in the interpreter
    for tree in (root, c):
        while tree:
            last = [x for x in tree if x.is_context]
            tree.clear()
            tree = last[0] if last else None
    return depth > 1000


ASPECTS = [
    Aspect("nodes", gen, check, quick=900, thorough=12000, shards=6,
           rule="at least three contexts and five tokens"),
    Aspect("deep", gen_deep, check_deep, quick=6, thorough=60, shards=1,
           rule="deeper than the interpreter's recursion limit"),
]
