"""The runner: generated-input search with shrinking, sharded over processes.

A property module (vp/props/<id>.py) lists its ``ASPECTS``. An aspect is one
executable statement: a generator producing JSON-serialisable cases (see
vp/gen.py), and a function ``check(case)`` comparing the real code with an oracle.

``check`` raises :class:`Violation` when the oracle disagrees; it returns a
truthy value when the case was non-trivial by the aspect's stated rule, falsy
when the case was trivial, and may raise :class:`Skip` for an input outside the
property's domain (these are counted and reported).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

from . import gen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PARCE_DIR = os.path.join(REPO, "parce") + os.sep

CASE_CPU_LIMIT = 60         # seconds of CPU time for a single small case
SHRINK_SECONDS = 40         # wall time for shrinking one failure
MEMORY_LIMIT = 3 << 30      # address space per worker


class Violation(AssertionError):
    """The oracle and the code disagree."""


class Skip(Exception):
    """The input lies outside the domain of the property."""


class Hang(BaseException):
    """The CPU watchdog went off while running a case."""


class HarnessError(Exception):
    """The check itself is broken or cannot give an answer."""


class Aspect:
    def __init__(self, name, strategy, check, quick=200, thorough=None, shards=2,
                 rule="", hang=True, thorough_shards=None, fixed=(), wall=0):
        self.name = name
        self.strategy = strategy            # function(Src) -> case
        self.check = check
        self.quick = quick                  # examples per shard
        self.thorough = thorough or quick * 10
        self.shards = shards
        self.thorough_shards = thorough_shards or max(8, shards)
        self.rule = rule
        self.hang = hang                    # is a hang a violation
        self.wall = wall                    # limit of wall time for a case (to notice a deadlock)
        self.fixed = fixed                  # explicitly listed cases (list or callable)


def need(cond, msg, *args):
    """Raise Violation if cond is false."""
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same(got, want, what):
    if got != want:
        raise Violation("{}: got {!r}, expected {!r}".format(what, got, want))


def digest(case):
    s = json.dumps(case, sort_keys=True, ensure_ascii=True, default=repr)
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def _alarm(signum, frame):
    raise Hang()


def classify(exc):
    """Return "violation" or "harness" for an exception raised by a case."""
    if isinstance(exc, (Violation, Hang)):
        return "violation"
    if isinstance(exc, (HarnessError, ImportError, OSError, SyntaxError, NotImplementedError)):
        # an OSError/ImportError raised inside parce is still its own doing
        return "violation" if _through_parce(exc) else "harness"
    if isinstance(exc, MemoryError):
        return "violation"
    if _through_parce(exc):
        return "violation"
    if isinstance(exc, AttributeError):
        obj = getattr(exc, "obj", None)
        if isinstance(obj, (types.ModuleType, type)):
            return "harness"
        return "violation"
    if isinstance(exc, (TypeError, IndexError, KeyError, ValueError)):
        # the harness could not digest a value the code handed out
        return "violation"
    return "harness"


def _through_parce(exc):
    tb = exc.__traceback__
    while tb:
        if tb.tb_frame.f_code.co_filename.startswith(PARCE_DIR):
            return True
        tb = tb.tb_next
    return False


def run_one(aspect, case):
    """Run a case under the CPU watchdog. Return the nontrivial flag."""
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    if aspect.wall:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, aspect.wall)
    try:
        return aspect.check(case)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        if aspect.wall:
            signal.setitimer(signal.ITIMER_REAL, 0)


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    if isinstance(exc, Hang):
        return "does not come to an end (watchdog of {} s CPU time, or a deadlock)".format(CASE_CPU_LIMIT)
    tb = traceback.extract_tb(exc.__traceback__)
    where = ["{}:{}".format(os.path.relpath(f.filename, "/"), f.lineno) for f in tb[-4:]]
    return "unexpected {}: {} at {}".format(type(exc).__name__, exc, " <- ".join(reversed(where)))


class Shard:
    """Runs one aspect for a number of examples in the current process."""

    def __init__(self, aspect, seed, examples, deadline, trace=None):
        self.aspect = aspect
        self.seed = seed
        self.examples = examples
        self.deadline = deadline
        self.evaluations = 0
        self.skipped = 0
        self.trivial = 0
        self.nontrivial = set()
        self.samples = []
        self.failure = None         # (case, message)
        self.harness_error = None
        self.truncated = False
        self.current = None         # the case that is being run
        self.trace = trace          # file to write it to

    def eval(self, case):
        """Run a case; return None if it passed, else the exception."""
        self.evaluations += 1
        self.current = case
        if self.trace:
            with open(self.trace, "w") as f:
                json.dump(case, f)
        try:
            flag = run_one(self.aspect, case)
        except Skip:
            self.skipped += 1
            return
        except (MemoryError, SystemError):
            unlimit_memory()        # the frames that hold the memory are gone after this
            return MemoryError("a small case needs more than {} GB".format(MEMORY_LIMIT >> 30))
        except (Exception, Hang) as exc:
            return exc
        self.current = None
        if flag:
            d = digest(case)
            if d not in self.nontrivial:
                self.nontrivial.add(d)
                if len(self.nontrivial) in (5, 50, 150):
                    self.samples.append(case)
        else:
            self.trivial += 1

    def failed(self, case, exc, choices):
        if isinstance(exc, Hang) and not self.aspect.hang or classify(exc) == "harness":
            self.harness_error = "".join(traceback.format_exception(exc))[-4000:] + \
                "\ncase: " + json.dumps(case, default=repr)[:2000]
            return
        self.failure = (case, describe(exc))
        if choices is None or isinstance(exc, (Hang, MemoryError)):
            return
        kind = type(exc)
        end = time.monotonic() + SHRINK_SECONDS

        def fails(new):
            src = gen.Src(None, new)
            try:
                c = self.aspect.strategy(src)
                run_one(self.aspect, c)
            except Skip:
                return None
            except Hang:
                return None
            except Exception as e:
                if type(e) is not kind or classify(e) == "harness":
                    return None
                self.failure = (c, describe(e))
                return src.record
            return None
        best = gen.shrink(choices, fails, lambda: time.monotonic() > end)
        # make sure the failure belongs to the best sequence
        src = gen.Src(None, best)
        c = self.aspect.strategy(src)
        try:
            run_one(self.aspect, c)
        except (Exception, Hang) as e:
            if classify(e) == "violation":
                self.failure = (c, describe(e))

    def run(self, first):
        if first:
            fixed = self.aspect.fixed
            for case in (fixed() if callable(fixed) else fixed):
                exc = self.eval(case)
                if exc is not None:
                    return self.failed(case, exc, None)
        rnd = random.Random(self.seed)
        for n in range(self.examples):
            if time.monotonic() > self.deadline:
                self.truncated = True
                return
            src = gen.Src(rnd)
            case = self.aspect.strategy(src)
            exc = self.eval(case)
            if exc is not None:
                return self.failed(case, exc, src.record)

    def result(self):
        return dict(
            evaluations=self.evaluations, skipped=self.skipped, trivial=self.trivial,
            nontrivial=list(self.nontrivial), samples=self.samples[:3],
            failure=self.failure, harness_error=self.harness_error,
            truncated=self.truncated)


def load(pid):
    prepare()
    return importlib.import_module("vp.props." + pid.lower())


_prepared = False

def prepare():
    """Make ``import parce`` read the sources in /repo, and nothing stale."""
    global _prepared
    if _prepared:
        return
    _prepared = True
    scratch = tempfile.mkdtemp(prefix="vp-")
    global SCRATCH, SCRATCH_OWNER
    SCRATCH = scratch
    SCRATCH_OWNER = os.getpid()
    sys.pycache_prefix = os.path.join(scratch, "pyc")
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.setrecursionlimit(3000)
    import parce
    if not os.path.abspath(parce.__file__).startswith(PARCE_DIR):
        raise HarnessError("parce imported from " + parce.__file__)


SCRATCH = None
SCRATCH_OWNER = None


def cleanup():
    if SCRATCH and SCRATCH_OWNER == os.getpid():
        shutil.rmtree(SCRATCH, ignore_errors=True)


def task_seed(seed, pid, name, shard):
    h = hashlib.sha256("{}:{}:{}:{}".format(seed, pid, name, shard).encode()).digest()
    return int.from_bytes(h[:6], "big")


def unlimit_memory():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def _worker(conn, pid, aspect, shard, seed, examples, deadline, trace=None):
    try:
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, hard))
        sys.stdout = open(os.devnull, "w")
        random.seed(seed)
        s = Shard(aspect, seed, examples, deadline, trace)
        try:
            s.run(shard == 0)
        except BaseException as exc:
            unlimit_memory()
            if isinstance(exc, (MemoryError, SystemError)) and s.current is not None:
                s.failure = s.failure or (s.current, "runs out of memory")
            if s.failure is None:
                s.harness_error = "".join(traceback.format_exception(exc))[-4000:]
        unlimit_memory()
        try:
            conn.send(s.result())
        except BaseException:
            traceback.print_exc()
            raise
        conn.close()
    finally:
        os._exit(0)


#: how many times the shards an aspect asks for are run in the quick tier
QUICK_SHARDS = {"C02": 2, "C03": 2, "C04": 2, "C05": 2, "C07": 2, "C15": 8,
                "C19": 8, "C20": 8, "C26": 8, "C16": 5, "C17": 5, "C24": 4,
                "C27": 5, "C28": 5, "C21": 5}


def run_tasks(pid, aspects, seed, tier, scale, jobs, budget):
    """Run all shards of all aspects; return {aspect name: [results]}."""
    ctx = multiprocessing.get_context("fork")
    tasks = []
    for a in aspects:
        shards = (a.shards * QUICK_SHARDS.get(pid, 3) if tier == "quick"
                  else a.thorough_shards)
        n = a.quick if tier == "quick" else a.thorough
        for i in range(shards):
            tasks.append((a, i, max(1, int(n * scale)) if n else 0, None))
    # the first shard of every aspect first
    tasks.sort(key=lambda t: t[1])
    deadline = time.monotonic() + budget
    results = {a.name: [] for a in aspects}
    running = {}
    failed = False
    fail_deadline = None
    while tasks or running:
        while tasks and len(running) < jobs and not failed:
            task = a, i, n, trace = tasks.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(
                w, pid, a, i, task_seed(seed, pid, a.name, i), n, deadline, trace))
            p.start()
            w.close()
            running[r] = (task, p)
        if failed:
            tasks = []
            if not running or time.monotonic() > fail_deadline:
                break
        if not running:
            break
        ready = multiprocessing.connection.wait(list(running), timeout=1)
        for r in ready:
            (a, i, n, trace), p = running.pop(r)
            try:
                res = r.recv()
            except EOFError:
                p.join()
                if trace is None and SCRATCH:
                    # run it again, writing down which case it is
                    tasks.insert(0, (a, i, n, os.path.join(SCRATCH, "trace-{}-{}".format(a.name, i))))
                    r.close()
                    continue
                res = dict(evaluations=0, skipped=0, trivial=0, nontrivial=[], samples=[],
                           failure=None, truncated=False,
                           harness_error="worker died, exit code {}".format(p.exitcode))
                if trace and os.path.exists(trace):
                    with open(trace) as f:
                        res["failure"] = (json.load(f), "the process dies, twice, exit code {}".format(p.exitcode))
                    res["harness_error"] = None
            p.join()
            r.close()
            results[a.name].append(res)
            if res["failure"] or res["harness_error"]:
                if not failed:
                    failed = True
                    # let the others that already found something finish shrinking
                    fail_deadline = time.monotonic() + 5
    for r, (task, p) in running.items():
        p.terminate()
        p.join()
    return results


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--aspect", action="append")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--budget", type=float, default=0)
    args = ap.parse_args(argv)
    pid = args.property.upper()
    started = time.monotonic()
    try:
        try:
            mod = load(pid)
        except Exception as exc:
            traceback.print_exc()
            print("ERROR property={} the check could not be loaded".format(pid))
            return 2
        if args.replay:
            return replay(pid, mod, args.replay)
        return run_check(pid, mod, args, started)
    finally:
        cleanup()


def run_check(pid, mod, args, started):
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    aspects = [a for a in mod.ASPECTS if not args.aspect or a.name in args.aspect]
    jobs = args.jobs or max(2, min(8, os.cpu_count() or 2))
    budget = args.budget or (240 if tier == "quick" else 3000)
    results = run_tasks(pid, aspects, args.seed, tier, args.scale, jobs, budget)

    known = load_known(pid)
    per_aspect = {}
    total = nontriv = skipped = 0
    distinct = set()
    samples = []
    failures = []
    errors = []
    for a in aspects:
        ev = sk = tr = 0
        nt = set()
        trunc = 0
        for r in results[a.name]:
            ev += r["evaluations"]
            sk += r["skipped"]
            tr += r["trivial"]
            nt.update(r["nontrivial"])
            trunc += bool(r["truncated"])
            for s in r["samples"]:
                if sum(1 for x in samples if x["aspect"] == a.name) < 2:
                    samples.append({"aspect": a.name, "case": s})
            if r["failure"]:
                failures.append((a, r["failure"]))
            if r["harness_error"]:
                errors.append((a, r["harness_error"]))
        per_aspect[a.name] = {"evaluations": ev, "distinct_nontrivial": len(nt),
                              "skipped": sk, "trivial": tr, "truncated_shards": trunc,
                              "nontrivial_when": a.rule}
        total += ev
        skipped += sk
        distinct.update((a.name, d) for d in nt)

    code = 0
    violations = 0
    if failures:
        failures.sort(key=lambda f: len(json.dumps(f[1][0], default=repr)))
        for a, (case, message) in failures[:3]:
            violations += 1
            path = write_replay(pid, a, case, message, args.seed)
            print("{}/{}: {}".format(pid, a.name, message[:1500]))
            print("VIOLATION property={} replay={}".format(pid, path))
        code = 1
    elif errors:
        for a, e in errors[:3]:
            print("ERROR in {}/{}:\n{}".format(pid, a.name, e[-2500:]))
        code = 2
    for line in check_known(pid, mod, known):
        print(line)

    evidence = {
        "property": pid, "tier": tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(distinct),
            "rule": "random choice sequences (vp/gen.py) generate JSON cases per aspect (seeded from VERIF_SEED); "
                    "a case is non-trivial by the rule given for its aspect: " +
                    "; ".join("{}: {}".format(a.name, a.rule) for a in aspects),
            "samples": samples,
            "skipped_outside_domain": skipped,
            "aspects": per_aspect,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", ())),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")
    print("{} {}: {} cases, {} distinct non-trivial, {} skipped, {:.1f} s, exit {}".format(
        pid, tier, total, len(distinct), skipped, time.monotonic() - started, code))
    if os.environ.get("VP_VERBOSE"):
        for n, d in per_aspect.items():
            print("   ", n, {k: v for k, v in d.items() if k != "nontrivial_when"})
    return code


def write_replay(pid, aspect, case, message, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{}-{}-{}.json".format(pid, aspect.name, digest(case)))
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "aspect": aspect.name, "seed": seed,
                   "message": message, "case": case,
                   "command": "python3-vt run.py {} --replay {}".format(pid, path)},
                  f, indent=1, default=repr)
        f.write("\n")
    return path


def replay(pid, mod, path):
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    aspect = next(a for a in mod.ASPECTS if a.name == data["aspect"])
    try:
        flag = run_one(aspect, data["case"])
    except Skip:
        print("case lies outside the domain")
        return 0
    except (Exception, Hang) as exc:
        traceback.print_exc()
        if classify(exc) == "harness":
            return 2
        print(describe(exc))
        print("VIOLATION property={} replay={}".format(pid, path))
        return 1
    print("case passes (non-trivial: {})".format(bool(flag)))
    return 0


def load_known(pid):
    """Return the known findings of the property (JSON objects).

    known_findings.txt has lines ``known: {json}`` and lines ``fixed: ...``;
    the latter suppress nothing.
    """
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                if line.startswith("known:"):
                    d = json.loads(line[6:])
                    if d.get("property") == pid:
                        out.append(d)
    return out


def check_known(pid, mod, known):
    """Run every listed finding; report those that still fail."""
    for d in known:
        aspect = next((a for a in mod.ASPECTS if a.name == d["aspect"]), None)
        check = getattr(mod, d["check"]) if d.get("check") else aspect.check
        try:
            signal.signal(signal.SIGPROF, _alarm)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
            try:
                check(d["case"])
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Skip:
            pass
        except (Exception, Hang):
            yield "KNOWN-FINDING: property={} {}".format(pid, d["what"])
