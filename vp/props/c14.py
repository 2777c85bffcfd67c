"""C14: a query selects the nodes that a plain list comprehension selects."""
import re

from vp.core import Aspect, Violation, need, same
from vp import treegen
from vp.props.c13 import is_, seq, treewalk
from vp.treegen import Built, TEXTS

NAV = ["children", "all", "alltokens", "allcontexts", "parent", "ancestors", "first", "last", "next", "previous",
       "forward", "backward", "right", "left", "right_siblings", "left_siblings"]
SEL = ["tokens", "contexts", "uniq", "remove_descendants", "remove_ancestors"]
PATTERNS = ["a", "^a", "b$", ".b", "[xf]", r"\n", "A"]
LIMIT = 1500


def gen_text(s):
    return s.pick(TEXTS + ["o", "ar", "", "\n"])


def gen_step(s):
    k = s.int(0, 12)
    if k < 5:
        return ["nav", s.pick(NAV)]
    if k < 7:
        return ["sel", s.pick(SEL)]
    if k == 7:
        return ["item", s.pick([0, 1, 2, -1, -2, -9, 5])]
    if k == 8:
        return ["slicekey", s.pick([None, 0, 1, -2]), s.pick([None, 1, 2, -1, 9]), s.pick([None, None, 1, 2, -1])]
    if k == 9:
        args = s.pick([[1], [3], [1, 3], [1, None], [0, None, 2], [2, 9, 3], [0]])
        return ["slice", args]
    if k == 10:
        return ["map", s.int(0, 3)]
    if k == 11:
        return ["filter", s.int(0, 2)]
    inv = s.int(0, 2)
    j = s.int(0, 9)
    if j == 0:
        return ["len", inv, s.pick([[1], [2], [1, 3], [2, 2], [0, 9], [4], [1, 0], [2, 1]])]
    if j == 1:
        return ["in_range", inv, s.pick([[], [s.int(0, 40)], [s.int(0, 40), None], [s.int(0, 40), s.int(0, 60)]])]
    if j == 2:
        return ["call", inv, s.list(lambda s: s.pick([["t", gen_text(s)], ["l", s.int(0, treegen.NLEX - 1)]]), 0, 3, 2)]
    if j in (3, 4, 5):
        return [["startingwith", "endingwith", "containing"][j - 3], inv, gen_text(s)]
    if j == 6:
        return ["matching", inv, s.pick(PATTERNS), s.pick([0, 0, re.I])]
    if j in (7, 8):
        return [["action", "in_action"][j - 7], inv, s.list(lambda s: s.int(0, 7), 0, 3, 1.5)]
    return ["nav", "all"]


def gen(s):
    steps = s.list(gen_step, 1, 6, 3.5)
    if s.int(0, 4):
        steps.insert(0, ["nav", s.pick(["all", "all", "all", "alltokens", "allcontexts", "children"])])
    return {"tree": s.list(lambda s: treegen.gen_node(s, 4), s.pick([0, 3]), 12, 6),
            "start": s.list(lambda s: s.int(0, 10000), 1, 3, 1.3), "zero": s.int(0, 5),
            "steps": steps}


def subtree(n):
    out = [n]
    if n.is_context:
        for m in list.__iter__(n):
            out.extend(subtree(m))
    return out


def mapper(k):
    if k == 0:
        return lambda n: [n, n]
    if k == 1:
        return lambda n: list(n) if n.is_context else []
    if k == 2:
        return lambda n: (n,) if n.is_token else ()
    return lambda n: iter([n.parent] if n.parent is not None else [])


def pred(k):
    return [lambda n: n.is_token, lambda n: n.pos % 2, lambda n: n.end - n.pos > 2][k]


class Model:
    def __init__(self, b):
        self.b = b
        self.index = {}
        self.A = treegen.actions()
        self.L = treegen.lexicons()
        self.supers = {}

    def sib(self, n):
        p, i = self.b.path[id(n)][-1]
        return list(list.__iter__(p)), i

    def nav(self, name, n):
        b = self.b
        path = b.path[id(n)]
        kids = list(list.__iter__(n)) if n.is_context else []
        pos, end = b.span(n)
        if name == "children":
            return kids
        if name == "all":
            return subtree(n)
        if name == "alltokens":
            return [m for m in subtree(n) if m.is_token]
        if name == "allcontexts":
            return [m for m in subtree(n) if m.is_context]
        if name == "parent":
            return b.anc(n)[:1]
        if name == "ancestors":
            return b.anc(n)
        if name == "first":
            return kids[:1]
        if name == "last":
            return kids[-1:]
        if name in ("next", "forward"):
            l = [t for t in b.tokens if t.pos >= end] if path else []
            return l[:1] if name == "next" else l
        if name in ("previous", "backward"):
            l = [t for t in reversed(b.tokens) if t.pos < pos] if path else []
            return l[:1] if name == "previous" else l
        sib, i = self.sib(n)
        if name in ("right", "right_siblings"):
            l = sib[i + 1:]
            return l[:1] if name == "right" else l
        l = sib[:i][::-1]
        return l[:1] if name == "left" else l

    def step(self, q, nodes, st):
        """Return the new query and the new list, or None if not applicable."""
        b = self.b
        k = st[0]
        if k == "nav":
            name = st[1]
            if name in ("right", "left", "right_siblings", "left_siblings") and any(n is b.root for n in nodes):
                return None     # documented to fail on a root
            out = [m for n in nodes for m in self.nav(name, n)]
            return getattr(q, name), out
        if k == "sel":
            ids = set(map(id, nodes))
            if st[1] == "tokens":
                out = [n for n in nodes if n.is_token]
            elif st[1] == "contexts":
                out = [n for n in nodes if n.is_context]
            elif st[1] == "uniq":
                out = [n for i, n in enumerate(nodes) if not any(m is n for m in nodes[:i])]
            elif st[1] == "remove_descendants":
                out = [n for n in nodes if not any(id(a) in ids for a in b.anc(n))]
            else:
                up = {id(a) for n in nodes for a in b.anc(n)}
                out = [n for n in nodes if id(n) not in up]
            return getattr(q, st[1]), out
        if k == "item":
            out = []
            for n in nodes:
                if n.is_context:
                    try:
                        out.append(list(list.__iter__(n))[st[1]])
                    except IndexError:
                        pass
            return q[st[1]], out
        if k == "slicekey":
            sl = slice(*st[1:])
            return q[sl], [m for n in nodes if n.is_context for m in list(list.__iter__(n))[sl]]
        if k == "slice":
            args = st[1]
            out = nodes[slice(*args)]
            return q.slice(*args), out
        if k == "map":
            f = mapper(st[1])
            return q.map(f), [m for n in nodes for m in f(n)]
        if k == "filter":
            f = pred(st[1])
            return q.filter(f), [n for n in nodes if f(n)]
        inv = st[1]
        for _ in range(inv):
            q = q.is_not
        no = inv % 2 == 1

        def sel(f, kind=lambda n: n.is_token):
            return [n for n in nodes if kind(n) and bool(f(n)) != no]
        if k == "len":
            a = st[2]
            lo, hi = a[0], a[-1]
            return q.len(*a), sel(lambda n: lo <= len(list(list.__iter__(n))) <= hi, lambda n: n.is_context)
        if k == "in_range":
            a = st[2]
            lo = a[0] if a else 0
            hi = a[1] if len(a) > 1 and a[1] is not None else 10 ** 9
            if no:
                out = [n for n in nodes if b.span(n)[1] <= lo or b.span(n)[0] >= hi]
            else:
                out = [n for n in nodes if b.span(n)[0] >= lo and b.span(n)[1] <= hi]
            return q.in_range(*a), out
        if k == "call":
            what = [self.L[x] if t == "l" else x for t, x in st[2]]
            texts = [x for t, x in st[2] if t == "t"]
            names = [self.L[x].fullname for t, x in st[2] if t == "l"]
            return q(*what), sel(lambda n: n.text in texts if n.is_token else n.lexicon.fullname in names,
                                 lambda n: True)
        if k == "startingwith":
            return q.startingwith(st[2]), sel(lambda t: t.text[:len(st[2])] == st[2])
        if k == "endingwith":
            return q.endingwith(st[2]), sel(lambda t: t.text[len(t.text) - len(st[2]):] == st[2]
                                            if len(st[2]) <= len(t.text) else False)
        if k == "containing":
            return q.containing(st[2]), sel(lambda t: t.text.find(st[2]) >= 0)
        if k == "matching":
            if st[3]:
                return q.matching(st[2], st[3]), sel(lambda t: re.search(st[2], t.text, st[3]))
            return q.matching(st[2]), sel(lambda t: re.search(st[2], t.text))
        if k == "action":
            acts = [self.A[i] for i in st[2]]
            return q.action(*acts), sel(lambda t: any(t.action is a for a in acts))
        if k == "in_action":
            acts = [self.A[i] for i in st[2]]
            names = [repr(a) for a in acts]
            return q.in_action(*acts), sel(lambda t: any((repr(t.action) + ".").startswith(n + ".") for n in names))
        raise AssertionError(k)


def run_query(case, b):
    from parce.query import Query
    m = Model(b)
    nodes = [b.nodes[0] if case["zero"] and not i else b.nodes[x % len(b.nodes)] for i, x in enumerate(case["start"])]
    q = nodes[0].query if len(nodes) == 1 else Query.from_nodes(nodes)
    desc = "query from {!r}".format(nodes)
    out = [(q, nodes, desc)]
    for st in case["steps"]:
        r = m.step(q, nodes, st)
        if r is None or len(r[1]) > LIMIT:
            continue
        q, nodes = r
        desc += " " + repr(st)
        out.append((q, nodes, desc))
    return out


def check(case):
    b = Built(case["tree"])
    steps = run_query(case, b)
    for q, nodes, desc in steps:
        seq(q, nodes, "{}", desc)
    # lazily: a query can be iterated again, and end points agree
    q, nodes, desc = steps[-1]
    seq(q, nodes, "{} (second iteration)", desc)
    same(q.count(), len(nodes), "count of " + desc)
    same(bool(q), bool(nodes), "truth of " + desc)
    mark = object()
    is_(q.pick(), nodes[0] if nodes else None, "pick of {}", desc)
    is_(q.pick(mark), nodes[0] if nodes else mark, "pick of {}", desc)
    is_(q.pick_last(mark), nodes[-1] if nodes else mark, "pick_last of {}", desc)
    spans = [b.span(n) for n in nodes]
    same(tuple(q.range()), (min(s[0] for s in spans), max(s[1] for s in spans)) if spans else (-1, -1),
         "range of " + desc)
    # delete
    ids = set(map(id, nodes))
    dead = {id(n) for n in b.nodes if id(n) in ids or any(id(a) in ids for a in b.anc(n))}
    # contexts loosing all their children go too
    for c in reversed(b.contexts):
        if c is not b.root and all(id(k) in dead for k in list.__iter__(c)):
            dead.add(id(c))
    dead.discard(id(b.root))
    want = [n for n in b.nodes if id(n) not in dead]
    # every node that is the topmost one to disappear counts
    count = sum(1 for n in b.nodes if id(n) in dead and not any(id(a) in dead for a in b.anc(n)))
    same(q.delete(), count, "number of nodes deleted by " + desc)
    seq(treewalk(b.root), want, "tree after deleting {}", desc)
    for n in want:
        if n is not b.root:
            is_(n.parent, b.anc(n)[0], "parent of {!r} after deleting", n)
    return len(steps) > 2 and 1 < len(nodes) and len(b.contexts) > 2


ASPECTS = [
    Aspect("query", gen, check, quick=5000, thorough=60000, shards=6,
           rule="two steps or more, more than one node selected in the end, a tree with sub-contexts"),
]
