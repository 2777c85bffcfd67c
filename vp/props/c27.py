"""C27: locks and caches work under every thread schedule."""
import os
import random
import shutil
import sys
import tempfile
import threading
import time

from vp.core import Aspect, PARCE_DIR, Skip, Violation, need, same


class Schedule:
    """Runs functions in threads; the interleaving is disturbed at random lines of parce code.

    A trace function gives up the interpreter lock at seed-chosen lines of the
    code under test, so preemption takes place at all points of it.
    """
    def __init__(self, seed, density):
        self.seed = seed
        self.density = density

    def run(self, funcs, timeout=60):
        errors = []
        start = threading.Barrier(len(funcs))

        def target(i, func):
            rnd = random.Random("{}-{}".format(self.seed, i))
            density = self.density

            def local(frame, event, arg):
                if event == "line" and rnd.random() < density:
                    time.sleep(rnd.choice((0, 0, 1e-4, 5e-4)))
                return local

            def trace(frame, event, arg):
                f = frame.f_code.co_filename
                if f.startswith(PARCE_DIR) or f.endswith("contextlib.py"):
                    return local

            try:
                start.wait(timeout)
                sys.settrace(trace)
                try:
                    func(rnd)
                finally:
                    sys.settrace(None)
            except BaseException as e:
                errors.append(e)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            threads = [threading.Thread(target=target, args=(i, f), daemon=True) for i, f in enumerate(funcs)]
            for t in threads:
                t.start()
            end = time.monotonic() + timeout
            for t in threads:
                t.join(max(0, end - time.monotonic()))
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in threads):
            raise Violation("deadlock: threads are still waiting after {} seconds".format(timeout))
        for e in errors:
            raise e


def base(s):
    return {"seed": s.int(0, 10**6), "density": s.pick([0.1, 0.3, 0.03, 0.6]), "threads": s.int(2, 5)}


# ---------------------------------------------------------------- object_locker

class Obj:
    pass


def gen_locker(s):
    c = base(s)
    c.update(objects=s.int(1, 2), rounds=s.int(1, 8), fail=s.one_in(3))
    return c


def check_locker(case):
    from parce.util import object_locker
    lock = object_locker()
    objs = [Obj() for _ in range(case["objects"])]
    inside = [0] * len(objs)
    overlap = []
    waited = [0]

    def work(rnd):
        for _ in range(case["rounds"]):
            i = rnd.randrange(len(objs))
            try:
                with lock(objs[i]):
                    if inside[i]:
                        overlap.append(i)
                    inside[i] += 1
                    waited[0] += 1
                    time.sleep(rnd.choice((0, 0, 1e-4, 3e-4)))
                    inside[i] -= 1
                    if case["fail"] and rnd.random() < .3:
                        raise ZeroDivisionError
            except ZeroDivisionError:
                pass

    Schedule(case["seed"], case["density"]).run([work] * case["threads"])
    need(not overlap, "two threads were in the locked context of the same object at the same time")
    # all released: a single thread gets in at once, and no reference is kept
    done = []
    t = threading.Thread(target=lambda: [done.append(lock(o).__enter__()) for o in objs], daemon=True)
    t.start()
    t.join(10)
    need(len(done) == len(objs), "the lock is not released")
    return case["threads"] > 2 and case["rounds"] > 1


def gen_ref(s):
    return {"n": s.int(1, 4), "fail": s.bool()}


def check_ref(case):
    import gc
    import weakref
    from parce.util import object_locker
    lock = object_locker()
    o = Obj()
    r = weakref.ref(o)
    for _ in range(case["n"]):
        try:
            with lock(o):
                if case["fail"]:
                    raise ZeroDivisionError
        except ZeroDivisionError:
            pass
    del o
    gc.collect()
    need(r() is None, "a reference to the object is kept after the lock is released")
    return case["n"] > 1


# ----------------------------------------------------------------------- caches

def gen_cache(s):
    c = base(s)
    c.update(kind=s.pick(["method", "func", "dict", "dictnone", "property", "unpack"]), keys=s.int(1, 3), none=s.one_in(3), rounds=s.int(1, 6))
    return c


def check_cache(case):
    import parce.util as u
    calls = {}
    kind = case["kind"]
    mutex = threading.Lock()

    def compute(*key):
        with mutex:
            calls[key] = calls.get(key, 0) + 1
        time.sleep(1e-4)
        return [key]

    none = case.get("none") and kind != "dictnone"    # None is a result like any other
    if none:
        compute_value = compute

        def compute(*key):
            compute_value(*key)

    if kind == "method":
        class C:
            @u.cached_method
            def f(self, *args):
                return compute(self.n, *args)
        objs = [C(), C()]
        for n, o in enumerate(objs):
            o.n = n
        get = lambda n, k: objs[n].f(k // 2, k, k % 2)
        name = lambda n, k: (n, k // 2, k, k % 2)
    elif kind == "property":
        class C:
            @u.cached_property
            def f(self):
                return compute(self.n)
        objs = [C(), C()]
        for n, o in enumerate(objs):
            o.n = n
        get = lambda n, k: objs[n].f
        name = lambda n, k: (n,)
    elif kind == "func":
        f = u.cached_func(compute)
        get = lambda n, k: f(n, k)
        name = lambda n, k: (n, k)
    elif kind == "unpack":
        d = u.caching_dict(compute, True)
        get = lambda n, k: d[n, k]
        name = lambda n, k: (n, k)
    elif kind == "dict":
        d = u.caching_dict(compute)
        get = lambda n, k: d[n * 10 + k]
        name = lambda n, k: (n * 10 + k,)
    else:
        d = u.caching_dict(lambda k: compute(k) if k % 2 else compute(k) and None, cache_none=False)
        get = lambda n, k: d[n * 10 + k]
        name = lambda n, k: (n * 10 + k,)
    seen = {}

    def work(rnd):
        for _ in range(case["rounds"]):
            n, k = rnd.randrange(2), rnd.randrange(case["keys"])
            v = get(n, k)
            with mutex:
                seen.setdefault(name(n, k), []).append(v)

    Schedule(case["seed"], case["density"]).run([work] * case["threads"])
    for key, vs in seen.items():
        if kind == "dictnone" and key[0] % 2 == 0:
            need(all(v is None for v in vs), "{!r} gives {!r} instead of None", key, vs)
            same(calls[key], len(vs), "calls of the function for a key whose None result is not to be cached")
            continue
        same(vs[0], None if none else [key], "value for {!r}".format(key))
        same(calls[key], 1, "number of calls of the {} function for {!r}".format(kind, key))
        need(all(v is vs[0] for v in vs), "different objects were returned for {!r}", key)
    return case["threads"] > 2 and any(len(v) > 2 for v in seen.values())


# -------------------------------------------------------------- singletons

def gen_single(s):
    c = base(s)
    c.update(kind=s.pick(["derive", "lexicon", "action", "symbol"]), keys=s.int(1, 3), rounds=s.int(1, 4))
    return c


_n = [0]


def check_single(case):
    """Objects that are created on first use are the same for all threads."""
    import parce
    from parce.standardaction import StandardAction
    from parce.util import Symbol
    _n[0] += 1
    uniq = "q{}x{}".format(os.getpid(), _n[0])

    class Lang(parce.Language):
        @parce.lexicon
        def root(cls):
            yield "a", 1, cls.root
            yield "b", 2, -1
        @parce.lexicon
        def other(cls):
            yield parce.rule.arg(default="c"), 3

    kind = case["kind"]
    if kind == "derive":
        get = lambda k: Lang.other("arg{}".format(k))
    elif kind == "lexicon":
        get = lambda k: (Lang.root, Lang.other)[k % 2]
    elif kind == "action":
        get = lambda k: getattr(getattr(StandardAction(uniq), "A{}".format(k)), "B")
    else:
        get = lambda k: Symbol(uniq + str(k))
    seen = {}
    mutex = threading.Lock()

    def work(rnd):
        for _ in range(case["rounds"]):
            k = rnd.randrange(case["keys"])
            v = get(k)
            if kind in ("derive", "lexicon"):
                # the rules are also computed on first use
                v.parse
                v.rules
            with mutex:
                seen.setdefault(k, []).append(v)

    Schedule(case["seed"], case["density"]).run([work] * case["threads"])
    for k, vs in seen.items():
        need(all(v is vs[0] for v in vs), "different {} objects for the same name: {!r}", kind, vs)
    if kind in ("derive", "lexicon"):
        # and they work
        from parce.tree import Context
        root = parce.root(Lang.root, "aab")
        same([(t.pos, t.text, t.action) for t in root.tokens()], [(0, "a", 1), (1, "a", 1), (2, "b", 2)], "tokens")
    return case["threads"] > 2


# ------------------------------------------------------------------- file_cache

def gen_file(s):
    return {"ops": [["write", 0]] + s.list(lambda s: [s.pick(["get", "get", "get", "touch", "write", "remove", "back"]), s.int(0, 1)], 1, 15, 9), "seed": s.int(0, 99)}


def check_file(case):
    """History of a file cache: read again when the modification time differs."""
    from parce.util import file_cache
    tmp = tempfile.mkdtemp(prefix="vpc27-")
    try:
        calls = []

        def read(fname):
            calls.append(fname)
            try:
                with open(fname) as f:
                    return [f.read()]
            except OSError:
                return None
        cache = file_cache(read)
        clock = 1000000000
        state = {}      # n -> (mtime, contents)
        cached = {}     # n -> mtime, value
        hits = 0
        for i, (op, n) in enumerate(case["ops"]):
            fname = os.path.join(tmp, "f{}".format(n))
            if op == "write":
                clock += 1 + n
                with open(fname, "w") as f:
                    f.write(str(i))
                os.utime(fname, (clock, clock))
                state[n] = (clock, str(i))
            elif op == "touch" and n in state:
                clock += 0.5
                os.utime(fname, (clock, clock))
                state[n] = (clock, state[n][1])
            elif op == "back" and n in state:       # an older file is put in place
                t = state[n][0] - 3600
                with open(fname, "w") as f:
                    f.write("old" + str(i))
                os.utime(fname, (t, t))
                state[n] = (t, "old" + str(i))
            elif op == "remove" and n in state:
                os.remove(fname)
                del state[n]
            elif op == "get":
                k = len(calls)
                v = cache[fname]
                new = len(calls) - k
                if n in state:
                    same(v, [state[n][1]], "contents at step {}".format(i))
                    if n in cached and cached[n][0] == state[n][0]:
                        hits += 1
                        same(new, 0, "calls for an unchanged file at step {}".format(i))
                        need(v is cached[n][1], "another object for an unchanged file at step {}", i)
                    else:
                        same(new, 1, "calls for a changed file at step {}".format(i))
                    cached[n] = (state[n][0], v)
                else:
                    same(v, None, "value for an absent file at step {}".format(i))
                    same(new, 1, "calls for an absent file at step {}".format(i))
        return hits > 0 and len(calls) > 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ASPECTS = [
    Aspect("locker", gen_locker, check_locker, quick=120, thorough=800, shards=6, wall=100,
           rule="at least three threads and two rounds"),
    Aspect("reference", gen_ref, check_ref, quick=10, thorough=20, shards=1, rule="locked more than once"),
    Aspect("cache", gen_cache, check_cache, quick=120, thorough=800, shards=6, wall=100,
           rule="at least three threads and three requests for one key"),
    Aspect("singleton", gen_single, check_single, quick=120, thorough=600, shards=4, wall=100, rule="at least three threads"),
    Aspect("file", gen_file, check_file, quick=1200, thorough=3000, shards=2, rule="a value is reused and the function called at least twice"),
]
