"""C28: actions, dispatchers, switches and stream helpers obey their algebra."""
import copy

from vp.core import Aspect, Skip, Violation, need, same

# ------------------------------------------------------------- standard actions

NAMES = ["A", "B", "C", "Dx", "é"]


def gen_action(s):
    return {"paths": s.list(lambda s: s.list(lambda s: s.pick(NAMES), 1, 4, 2.5), 2, 5, 3), "own": s.bool()}


_count = [0]


def check_action(case):
    from parce.standardaction import StandardAction
    import parce.action as act
    _count[0] += 1
    if case["own"]:
        top = lambda name: StandardAction("Vp" + name)
        first = lambda name: "Vp" + name
    else:
        t = {"A": act.Name, "B": act.Text, "C": act.Literal, "Dx": act.Comment, "é": act.Delimiter}
        top = t.get
        first = lambda name: repr(t[name])

    def make(path):
        a = top(path[0])
        for p in path[1:]:
            a = getattr(a, p)
        return a

    paths = case["paths"]
    actions = [make(p) for p in paths]
    full = [tuple([first(p[0])] + p[1:]) for p in paths]
    for p, f, a in zip(paths, full, actions):
        same(repr(a), ".".join(f), "repr")
        need(make(p) is a, "accessing {!r} twice gives different objects", f)
        need(copy.copy(a) is a and copy.deepcopy(a) is a, "copying {!r} gives another object", a)
        need(copy.deepcopy([a, {"k": a}])[1]["k"] is a, "copying a list with {!r} gives another object", a)
        anc = list(a)
        same([repr(x) for x in anc], [".".join(f[:i]) for i in range(len(f), 0, -1)], "iteration of {!r}".format(a))
        need(anc[0] is a, "iteration does not start with {!r}", a)
        for i, x in enumerate(anc):
            need(make(p[:len(p) - i]) is x, "ancestor {} of {!r}", i, a)
        for n in NAMES + [f[0], "Nope", f[-1], f[-1].lower(), f[0].upper(), f[0][:2]]:
            same(n in a, n in f, "{!r} in {!r}".format(n, a))
        parent = a._parent
        same(parent and repr(parent), ".".join(f[:-1]) or None, "the parent of {!r}".format(a))
    for f, a in zip(full, actions):
        for g, b in zip(full, actions):
            same(a is b, f == g, "{!r} is {!r}".format(a, b))
            same(a == b, f == g, "{!r} == {!r}".format(a, b))
            same(a in b, f[:len(g)] == g, "{!r} in {!r}".format(a, b))
            common = 0
            while common < min(len(f), len(g)) and f[common] == g[common]:
                common += 1
            r = a & b
            same(None if r is None else repr(r), ".".join(f[:common]) or None, "{!r} & {!r}".format(a, b))
            if r is not None:
                need(a in r and b in r, "{!r} and {!r} are not in {!r}", a, b, r)
                need(r is (b & a), "& is not symmetric for {!r} and {!r}", a, b)
    return len(set(full)) > 1 and len({f[0] for f in full}) < len(full)


# ------------------------------------------------------------------- dispatcher

def gen_disp(s):
    """A hierarchy of classes with a dispatcher in some of them."""
    classes = []
    n = s.int(1, 4)
    for i in range(n):
        bases = [] if i == 0 else s.sample(range(i), s.pick([1, 1, 1, 2]))
        bases.sort(reverse=True)
        classes.append({
            "bases": bases,
            "disp": True if i == 0 else s.bool(),
            "methods": [[s.pick(["m0", "m1", "m2", "m3"]), s.list(lambda s: s.int(0, 5), 0, 3, 1.2)]
                        for _ in range(s.int(0, 3))],
        })
    return {"classes": classes, "default": s.pick([False, True]), "calls": s.list(lambda s: [s.int(0, n - 1), s.int(0, 6), s.int(0, 99)], 1, 10, 6),
            "early": s.bool()}


KEYS = [0, 1, None, "", (), "k", frozenset("x")]


def check_disp(case):
    from parce.util import Dispatcher
    classes = []
    defs = []           # (own dispatcher?, {method: (definition order)}, {key: method})
    default = case["default"]
    for i, c in enumerate(case["classes"]):
        ns = {}
        table = {}
        methods = {}
        if c["disp"]:
            if default:
                def dflt(self, key, *args, **kw):
                    return ["default", self.n, key, list(args), kw]
                ns["dispatch"] = d = Dispatcher(dflt)
            else:
                ns["dispatch"] = d = Dispatcher()
        for name, keys in c["methods"]:
            keys = [KEYS[k] for k in keys]

            def func(self, *args, i=i, name=name, **kw):
                return [i, name, self.n, list(args), kw]
            func.__name__ = name
            if c["disp"] and keys:
                r = d(*keys)(func)
                need(r is func, "the decorator does not return the function")
                for k in keys:
                    table[k] = name
            ns[name] = func
            methods[name] = i
        try:
            cls = type("K{}".format(i), tuple(classes[b] for b in c["bases"]) or (object,), ns)
        except TypeError:       # no consistent method order
            raise Skip()
        classes.append(cls)
        defs.append((c["disp"], methods, table))
        if case["early"]:
            o = cls()
            o.n = 0
            o.dispatch.get(0)
    hits = 0
    for ci, key, arg in case["calls"]:
        cls = classes[ci]
        key = KEYS[key]
        o = cls()
        o.n = arg
        mro = [classes.index(k) for k in cls.__mro__ if k in classes]
        table = {}
        for k in reversed(mro):
            if defs[k][0]:
                table.update(defs[k][2])
        got = o.dispatch(key, arg, x=1)
        m = o.dispatch.get(key)
        if key in table:
            hits += 1
            impl = next(k for k in mro if table[key] in defs[k][1])
            want = [impl, table[key], arg, [arg], {"x": 1}]
            same(got, want, "call of {} with key {!r}".format(ci, key))
            same(m(arg, x=1), want, "get({!r})".format(key))
            same(o.dispatch(key), [impl, table[key], arg, [], {}], "call with only the key {!r}".format(key))
        else:
            same(m, None, "get({!r})".format(key))
            if default:
                same(got, ["default", arg, key, [arg], {"x": 1}], "call with an unknown key {}".format(key))
                same(o.dispatch.default(key, arg), ["default", arg, key, [arg], {}], "default")
            else:
                same(got, None, "call with an unknown key {}".format(key))
                same(o.dispatch.default, None, "default")
    return hits > 1 and len(classes) > 1


# ----------------------------------------------------------------------- switch

def gen_switch(s):
    return {"ops": s.list(lambda s: [s.pick(["enter", "enter", "exit", "fail", "fail1", "fail2", "fail3", "class", "new"]), s.int(0, 2)], 1, 20, 10)}


def check_switch(case):
    from parce.util import Switch

    class K:
        a = Switch()
        b = Switch()

    objs = [K(), K()]
    free = Switch()
    model = [0, 0, 0]
    stacks = [[], [], []]
    most = 0
    for op, n in case["ops"]:
        def sw():
            return free if n == 2 else objs[n].a
        if op == "enter":
            cm = sw()
            cm.__enter__()
            stacks[n].append(cm)
            model[n] += 1
        elif op.startswith(("exit", "fail")) and stacks[n]:
            cm = stacks[n].pop()
            e = {"exit": None, "fail": ValueError, "fail1": KeyboardInterrupt, "fail2": GeneratorExit, "fail3": StopIteration}[op]
            exc = (e, e and e(), None)
            need(not cm.__exit__(*exc), "a Switch swallows exceptions")
            model[n] -= 1
        elif op == "class":
            K.a
            K().a
        elif op == "new" and n < 2 and not stacks[n]:
            objs[n] = K()
        most = max(most, *model)
        same([bool(objs[0].a), bool(objs[1].a), bool(free)], [m > 0 for m in model], "the switches after {}".format(op))
        same([bool(objs[0].b), bool(objs[1].b)], [False, False], "the other switches")
    return most > 1


# ----------------------------------------------------------------------- streams

def gen_stream(s):
    pos = s.int(0, 5)
    out = []
    for _ in range(s.int(0, 8)):
        end = pos + s.int(1, 5)
        out.append([pos, end, s.pick(["x", "y"]), s.pick([0, 0, 0, 1])])
        pos = end + s.pick([0, 0, 1, 3])
    return {"items": out, "start": s.int(0, 12), "end": s.pick([None, pos, s.int(0, 30), s.int(0, 3)]), "named": s.pick(["tuple", "factory", "default"]), "cols": s.pick([2, 1, 0])}


def check_stream(case):
    from parce.util import merge_adjacent, fix_boundaries
    items = [tuple(i[:2 + case["cols"]]) for i in case["items"]]
    args = []
    if case["named"] == "factory":
        args = [lambda *a: ("made",) + a]
    got = list(merge_adjacent(iter(items), *args))
    if args:
        need(all(g[0] == "made" for g in got), "the factory is not used")
        got = [g[1:] for g in got]
    need(all(type(g) is tuple for g in got), "merge_adjacent yields no tuples: {!r}", got)
    # every position keeps its properties, and neighbours can't be merged
    def cover(l):
        return {p: i[2:] for i in l for p in range(i[0], i[1])}
    same(cover(got), cover(items), "positions covered after merging {!r}".format(items))
    for a, b in zip(got, got[1:]):
        need(a[1] <= b[0], "items overlap after merging: {!r}", got)
        need(a[1] < b[0] or a[2:] != b[2:], "adjacent alike items are left: {!r}", got)
    start, end = case["start"], case["end"]
    # the items that overlap the range, as produced by the users of this function
    part = [i for i in items if i[1] > start and (end is None or i[0] < end)]
    got = list(fix_boundaries(iter(part), start, end))
    want = [(max(i[0], start) if n == 0 else i[0], min(i[1], end) if n == len(part) - 1 and end is not None else i[1]) + i[2:] for n, i in enumerate(part)]
    same(got, want, "fix_boundaries({!r}, {}, {})".format(part, start, end))
    return len(items) > 2


def nested(s, depth=3):
    k = s.int(0, 4)
    if k < 3 or not depth:
        return s.pick([0, 1, "a", "bc", None, ["set"]]) if k < 3 else 7
    return {"t" if k == 3 else "l": s.list(lambda s: nested(s, depth - 1), 0, 4, 2)}


def gen_lists(s):
    return {"list": s.list(lambda s: s.pick(["a", ",", "b", ","]), 0, 9, 5), "nested": nested(s, 4)}


def build(n):
    if isinstance(n, dict):
        (k, v), = n.items()
        return (tuple if k == "t" else list)(build(x) for x in v)
    if isinstance(n, list):
        return frozenset(n)
    return n


def flat(n):
    if isinstance(n, dict):
        return [y for v in n.values() for x in v for y in flat(x)]
    return [build(n)]


def check_lists(case):
    from parce.util import split_list, unroll
    l = case["list"]
    want = [[]]
    for x in l:
        if x == ",":
            want.append([])
        else:
            want[-1].append(x)
    same(list(split_list(list(l), ",")), want, "split_list({!r})".format(l))
    same([list(x) for x in split_list(tuple(l), ",")], want, "split_list of a tuple")
    same(list(unroll(build(case["nested"]))), flat(case["nested"]), "unroll({!r})".format(build(case["nested"])))
    return len(want) > 2 or len(flat(case["nested"])) > 2


# ------------------------------------------------------------------ sister class

def gen_sister(s):
    n = s.int(1, 4)
    return {"langs": [{"base": None if i == 0 or s.one_in(4) else s.int(0, i - 1), "module": s.int(0, 1),
                       "sister": s.pick([None, "T", "T", "other", "value"])} for i in range(n)]}


def check_sister(case):
    import sys
    import types
    import parce
    from parce.util import language_sister_class
    from parce.transform import Transform
    mods = [types.ModuleType("vp_c28_m0"), types.ModuleType("vp_c28_m1")]
    for m in mods:
        sys.modules[m.__name__] = m
    try:
        langs = []
        for i, l in enumerate(case["langs"]):
            base = parce.Language if l["base"] is None else langs[l["base"]]
            mod = mods[l["module"]]
            cls = type(base)("L{}".format(i), (base,), {"__module__": mod.__name__})
            langs.append(cls)
            setattr(mod, cls.__name__, cls)
            if l["sister"] == "T":
                s = type("L{}Transform".format(i), (Transform,), {})
            elif l["sister"] == "other":
                s = type("L{}Transform".format(i), (object,), {})
            elif l["sister"] == "value":
                s = "text"
            else:
                continue
            setattr(mod, "L{}Transform".format(i), s)
        inherited = 0
        for i, cls in enumerate(langs):
            def own(j):
                l = case["langs"][j]
                return getattr(mods[l["module"]], "L{}Transform".format(j)) if l["sister"] == "T" else None
            need(language_sister_class(cls, "{}Transform", Transform) is own(i), "wrong sister class for {!r}", cls)
            j = i
            while j is not None and own(j) is None:
                j = case["langs"][j]["base"]
            want = None if j is None else own(j)
            inherited += j is not None and j != i
            got = language_sister_class(cls, "{}Transform", Transform, True)
            need(got is want, "wrong sister class for {!r}: {!r} instead of {!r}", cls, got, want)
        return inherited > 0
    finally:
        for m in mods:
            sys.modules.pop(m.__name__, None)


# ------------------------------------------------------------------- lexicons

ARGS = ["x", "", "yy", 7, 0, ["t", 1], None]


def gen_lexicons(s):
    classes = []
    for i in range(s.int(1, 4)):
        classes.append({"bases": s.sample(list(range(i)), s.pick([0, 1, 1, 2])) if i else [],
                        "names": s.sample(["a", "b", "c"], s.pick([1, 1, 2, 3]))})
    return {"classes": classes, "gets": s.list(lambda s: [s.int(0, len(classes) - 1), s.pick("abc"),
                                                          s.list(lambda s: s.pick(ARGS), 0, 3, 1)], 2, 8, 5)}


def check_lexicons(case):
    from parce import Language, lexicon
    classes = []
    for i, c in enumerate(case["classes"]):
        ns = {}
        for n in c["names"]:
            def rules(cls, n=n):
                yield n, n
            rules.__name__ = n
            ns[n] = lexicon(rules)
        bases = tuple(classes[j] for j in sorted(c["bases"], reverse=True)) or (Language,)
        try:
            classes.append(type("L{}".format(i), bases, ns))
        except TypeError:
            raise Skip
    got = []
    for i, name, args in case["gets"]:
        cls = classes[i]
        owner = next((k for k in cls.__mro__ if name in vars(k)), None)
        if owner is None:
            continue
        lx = getattr(cls, name)
        arg = None
        for a in args:
            a = tuple(a) if isinstance(a, list) else a
            lx = lx(a)
            if a is not None:
                arg = a
        need(type(lx.arg) is type(arg) and lx.arg == arg, "{}.{} called with {!r} has arg {!r}", cls.__name__, name, args, lx.arg)
        same(lx.name, name, "name")
        need(lx.language is cls, "language of {!r}", lx)
        same(lx.fullname, cls.__name__ + "." + name, "full name")
        need(getattr(cls, name) is getattr(cls, name), "the lexicon is not the same when got again")
        got.append(((owner, cls, name), arg, lx))
    for k1, a1, x in got:
        for k2, a2, y in got:
            what = "{!r} (argument {!r}) and {!r} (argument {!r})".format(x, a1, y, a2)
            same(x is y, k1 == k2 and type(a1) is type(a2) and a1 == a2, "identity of " + what)
            same(x == y, k1 == k2, "equality of " + what)
            same(x != y, k1 != k2, "inequality of " + what)
        need(not (x == "x") and x != "x" and x != None, "{!r} equals something that is not a lexicon", x)  # noqa
        same({x: 1}.get(x), 1, "look up of {!r} as a key".format(x))
    return len(got) > 2 and any(a is not None for k, a, x in got)


# -------------------------------------------------------------------- targets

def gen_target(s):
    def op(s):
        k = s.int(0, 3)
        if k == 0:
            return ["pop", s.int(0, 4)]
        if k == 1:
            return ["push", s.list(lambda s: s.int(0, 5), 0, 3, 1.5)]
        if k == 2:
            return ["add", s.int(0, 4), s.list(lambda s: s.int(0, 5), 0, 3, 1.2)]
        return s.pick([["get"], ["none"], ["pop", 1]])
    return {"ops": s.list(op, 1, 12, 6), "rule": s.list(lambda s: s.int(-3, 3) if s.bool() else ["lex", s.int(0, 5)], 0, 5, 3)}


def check_target(case):
    """A factory's target has the effect of the separate steps."""
    from parce.target import Target, TargetFactory

    def apply(stack, t):
        if t is None:
            return stack
        need(t.pop <= 0 and isinstance(t.push, tuple), "odd target {!r}", t)
        need(t.pop or t.push, "a target that does nothing")
        return (stack[:t.pop] if t.pop else list(stack)) + list(t.push)
    start = list(range(100, 200))
    f = TargetFactory()
    want, stack = list(start), list(start)
    low = len(stack)        # lowest height since the last get()
    base = len(stack)
    for op in case["ops"] + [["get"]]:
        if op[0] == "pop":
            f.pop(-op[1]) if op[1] != 1 else f.pop()
            want = want[:-op[1]] if op[1] else want
        elif op[0] == "push":
            f.push(*op[1])
            want = want + op[1]
        elif op[0] == "add":
            f.add(Target(-op[1], tuple(op[2])))
            want = (want[:-op[1]] if op[1] else want)
            low = min(low, len(want))
            want = want + op[2]
        elif op[0] == "none":
            f.add(None)
        low = min(low, len(want))
        if op[0] == "get":
            t = f.get()
            stack = apply(stack, t)
            same(stack, want, "lexicons after {!r}".format(case["ops"]))
            # never leaves more than needed
            same(-t.pop if t else 0, base - low, "lexicons left by {!r}".format(case["ops"]))
            low = base = len(stack)
            need(f.get() is None, "the factory was not reset")
    # the target of a rule
    rule = [x[1] * 10 + 0.5 if isinstance(x, list) else x for x in case["rule"]]
    want = list(start)
    for x in rule:
        if isinstance(x, float):
            want = want + [x]
        elif x < 0:
            want = want[:x]
        else:
            want = want + ["self"] * x
    same(apply(list(start), TargetFactory.make("self", rule)), want, "target of the rule {!r}".format(rule))
    return len(case["ops"]) > 3


ASPECTS = [
    Aspect("action", gen_action, check_action, quick=1500, thorough=15000, shards=2, rule="at least two different actions, two of them with the same root"),
    Aspect("dispatcher", gen_disp, check_disp, quick=4000, thorough=60000, shards=2, rule="at least two classes and two dispatched calls"),
    Aspect("switch", gen_switch, check_switch, quick=3000, thorough=40000, shards=2, rule="a switch is entered twice"),
    Aspect("stream", gen_stream, check_stream, quick=6000, thorough=90000, shards=2, rule="at least three items"),
    Aspect("lists", gen_lists, check_lists, quick=6000, thorough=90000, shards=2, rule="at least three parts or items"),
    Aspect("sister", gen_sister, check_sister, quick=3000, thorough=30000, shards=2, rule="a class is found through a parent"),
    Aspect("lexicons", gen_lexicons, check_lexicons, quick=4000, thorough=60000, shards=1, rule="at least three lexicons, one of them derived"),
    Aspect("target", gen_target, check_target, quick=6000, thorough=60000, shards=1, rule="at least four steps"),
]
