"""C25: events reach exactly the connected callbacks, in order, whatever they do."""
import contextlib
import gc

from vp.core import Aspect, Skip, Violation, need, same

EVENTS = ["e", "f"]
NFUNC = 6           # 0-2 functions, 3-5 methods (of objects 3, 4 and 4)
OWNER = {3: 3, 4: 4, 5: 4}


def gen_op(s, depth):
    k = s.int(0, 11)
    e = s.pick(EVENTS)
    f = s.int(0, NFUNC - 1)
    if k < 4:
        return ["connect", e, f, s.one_in(4), s.one_in(4), s.pick([0, 0, 0, 1, -1, 2])]
    if k == 4:
        return ["disconnect", e, f]
    if k == 5:
        return ["disconnect_all", s.pick([None, e, e]) if s.one_in(2) else e]
    if k == 6:
        return ["kill", s.pick([3, 4])] if depth == 0 else ["disconnect", e, f]
    if k == 7:
        return ["query", e, f]
    return ["emit", e, s.int(0, 9), s.bool()]


def gen_case(s):
    return {"ops": s.list(lambda s: gen_op(s, 0), 1, 25, 12),
            "acts": [s.list(lambda s: gen_op(s, 1), 0, 3, .7) for _ in range(NFUNC)],
            "cms": [s.one_in(3) for _ in range(NFUNC)],
            "rets": [s.int(0, 2) for _ in range(NFUNC)]}


MAXDEPTH = 3


class Model:
    """The documented behaviour, on plain lists."""
    def __init__(self, case):
        self.case = case
        self.slots = {}
        self.log = []
        self.depth = 0
        self.dead = set()
        self.rounds = 0

    def alive(self, f):
        return f not in self.dead

    def run(self, op):
        k = op[0]
        if k == "connect":
            _, e, f, once, ps, prio = op
            if not self.alive(f):
                return
            sl = self.slots.setdefault(e, [])
            if any(x["f"] == f for x in sl):
                return
            i = len(sl)
            while i and sl[i - 1]["prio"] > prio:
                i -= 1
            sl.insert(i, {"f": f, "once": once, "ps": ps, "prio": prio})
        elif k == "disconnect":
            if self.alive(op[2]):
                sl = self.slots.get(op[1], [])
                sl[:] = [x for x in sl if x["f"] != op[2]]
        elif k == "disconnect_all":
            for e, sl in self.slots.items():
                if op[1] is None or e == op[1]:
                    sl.clear()
        elif k == "kill":
            for f, o in OWNER.items():
                if o == op[1]:
                    self.dead.add(f)
            for sl in self.slots.values():
                sl[:] = [x for x in sl if self.alive(x["f"])]
        elif k == "query":
            sl = self.slots.get(op[1], [])
            self.log.append(["query", bool(sl), any(x["f"] == op[2] for x in sl) if self.alive(op[2]) else None])
        elif k == "emit":
            self.emit(op)

    def emit(self, op):
        if self.depth >= MAXDEPTH or self.rounds > 60:
            return
        self.rounds += 1
        self.depth += 1
        entered = []
        sl = self.slots.setdefault(op[1], [])
        for x in list(sl):
            if not any(y["f"] == x["f"] for y in sl):
                continue
            if x["once"]:
                sl[:] = [y for y in sl if y["f"] != x["f"]]
            f = x["f"]
            self.log.append(["call", f, op[1], op[2], x["ps"]])
            for a in self.case["acts"][f]:
                self.run(a)
            if self.case["cms"][f]:
                self.log.append(["enter", f])
                entered.append(f)
        self.depth -= 1
        if op[3]:
            self.log.append(["body"])
            for f in reversed(entered):
                self.log.append(["exit", f])


class Real:
    def __init__(self, case):
        from parce.util import Observable
        self.case = case
        self.o = Observable()
        self.log = []
        self.depth = 0
        self.rounds = 0
        self.deadslots = False
        real = self

        def body(f, e, args):
            ps = len(args) == 2 and args[0] is real.o
            real.log.append(["call", f, e, args[-1], ps] if len(args) == (2 if ps else 1) else ["badcall", f, e, repr(args)])
            for a in real.case["acts"][f]:
                real.run(a)
            if real.case["cms"][f]:
                return real.cm(f)
            return [None, 5, "text"][real.case["rets"][f]]

        class Obj:
            def m3(self, *args, ev):
                return body(3, ev, args)
            m4 = lambda self, *args, ev: body(4, ev, args)
            m5 = lambda self, *args, ev: body(5, ev, args)

        self.objs = {3: Obj(), 4: Obj()}
        self.funcs = {}
        for f in range(3):
            self.funcs[f] = (lambda f: lambda *args, ev: body(f, ev, args))(f)

    @contextlib.contextmanager
    def cm(self, f):
        self.log.append(["enter", f])
        yield
        self.log.append(["exit", f])

    def func(self, f):
        if f in self.funcs:
            return self.funcs[f]
        obj = self.objs.get(OWNER[f])
        return obj and getattr(obj, "m{}".format(f))

    def run(self, op):
        k = op[0]
        o = self.o
        if k == "connect":
            _, e, f, once, ps, prio = op
            fn = self.func(f)
            if fn:
                o.connect(e, fn, once=once, prepend_self=ps, priority=prio)
        elif k == "disconnect":
            fn = self.func(op[2])
            if fn:
                o.disconnect(op[1], fn)
        elif k == "disconnect_all":
            if op[1] is None:
                o.disconnect_all()
            else:
                o.disconnect_all(op[1])
        elif k == "kill":
            self.deadslots = True
            self.objs.pop(op[1], None)
            gc.collect()
        elif k == "query":
            fn = self.func(op[2])
            self.log.append(["query", o.has_connections(op[1]), o.is_connected(op[1], fn) if fn else None])
        elif k == "emit":
            if self.depth >= MAXDEPTH or self.rounds > 60:
                return
            self.rounds += 1
            self.depth += 1
            try:
                s = o.emit(op[1], op[2], ev=op[1])
            finally:
                self.depth -= 1
            if op[3]:
                with s:
                    self.log.append(["body"])


def check(case):
    m, r = Model(case), Real(case)
    for i, op in enumerate(case["ops"]):
        m.run(op)
        r.run(op)
        if r.deadslots:
            # a method that no longer exists may still be counted as a connection
            for log in (m.log, r.log):
                for x in log:
                    if x[0] == "query":
                        x[1] = None
        same(r.log, m.log, "calls after step {} {!r}".format(i, op))
    calls = [x for x in m.log if x[0] == "call"]
    return len(calls) > 2 and len({x[1] for x in calls}) > 1


ASPECTS = [
    Aspect("history", gen_case, check, quick=1500, thorough=20000, shards=4,
           rule="at least three calls of two different callbacks"),
]
