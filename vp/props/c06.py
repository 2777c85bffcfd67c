"""C06: a Document's tree and transformed result, under any history of edits, switches and schedules."""
import threading
import time

from vp import langs as B
from vp.core import Aspect, HarnessError, Skip, Violation, need, same
from vp.props import c07
from vp.treecheck import nested, same_nested

TOY_PIECES = ["[", "]", "(", ")", "a", "bc", " ", "\n", "1", "23", "#", "# c\n", "[a", "1]", "(b)", "\"", "\"x\"", "{", "}", "ab"]
JSON_PIECES = ["{", "}", "[", "]", ",", ":", "1", "-2.5", "true", "null", "\"", "\"k\"", "\\n", " ", "\n", "x", "\"a\": ", "[1, 2]"]


def toy():
    global _toy
    try:
        return _toy
    except NameError:
        pass
    import parce.action as a
    from parce import Language, default_target, lexicon
    from parce.rule import arg

    class Toy(Language):
        @lexicon
        def root(cls):
            yield r"\[", a.Delimiter, cls.brackets
            yield r"\(", a.Bracket, cls.parens
            yield r"#", a.Comment, cls.comment
            yield r'"', a.String, cls.string
            yield r"\d+", a.Number
            yield r"\w+", a.Name

        @lexicon
        def brackets(cls):
            yield r"\]", a.Delimiter, -1
            yield from cls.root

        @lexicon(consume=True)
        def parens(cls):
            yield r"\)", a.Bracket, -1
            yield from cls.root

        @lexicon
        def comment(cls):
            yield r"$", None, -1
            yield r"\w+", a.Comment
            yield r"\n", a.Comment, -1

        @lexicon
        def string(cls):
            yield r'"', a.String, -1
            yield r"[^\"]", a.String

        @lexicon
        def derived(cls):
            yield arg(), a.Keyword
            yield r"\{", a.Bracket, cls.derived("c")
            yield r"\}", a.Bracket, -1
            yield from cls.root
    _toy = Toy
    return Toy


def lexicons(kind):
    from parce.lang.json import Json
    t = toy()
    if kind == "json":
        return [Json.root, t.root, None, Json.root, t.derived("1"), t.derived("2")]
    return [t.root, t.parens, None, Json.root, t.derived("a"), t.derived("b")]


def gen_op(s, pieces, stepped):
    k = s.int(0, 23)
    if k <= 8:
        return ["edit", s.int(0, 99), s.pick([0, 0, 0, 1, 1, 2, 5, 30]), "".join(s.list(lambda s: s.pick(pieces), 0, 3, 1.5))]
    if k <= 15 and stepped:
        return ["step", s.int(0, 9), s.int(1, 3)]
    if k == 16:
        return ["root", s.pick([0, 1, 2, 3, 4, 5, 4, 5])]
    if k <= 18:
        return ["tf", s.int(0, 2)]
    if k <= 20:
        return [s.pick(["cb_root", "cb_transform"]), s.int(0, 1)]
    if k == 21:
        return ["token", [s.int(0, 99) for _ in range(3)]]
    if k == 22:
        return ["undo"]
    if not stepped:
        return ["wait", s.int(0, 1)]
    return ["step", 0, 5]


def gen_handler(s, pieces):
    ev = s.pick(["tree_updated", "tree_finished", "transform_finished", "started", "tree_finished"])
    op = gen_op(s, pieces, False)
    if op[0] in ("wait", "token", "undo"):
        op = ["wait", s.int(0, 1)]
        if ev == "started":
            op = ["edit", s.int(0, 99), 0, s.pick(pieces)]
    return [ev, s.int(1, 4), op, bool(s.int(0, 1))]


def gen(stepped):
    def g(s):
        kind = s.pick(["toy", "toy", "json"])
        pieces = TOY_PIECES if kind == "toy" else JSON_PIECES
        return {"kind": kind, "text": "".join(s.list(lambda s: s.pick(pieces), 0, 25, 10)),
                "tf": s.int(0, 2), "own": s.int(0, 2), "sep": s.pick(["\n", "\n", " ", "ab", ","]),
                "ops": s.list(lambda s: gen_op(s, pieces, stepped), 1, 25, 10),
                "handlers": s.list(lambda s: gen_handler(s, pieces), 0, 3, 0.8)}
    return g


class Setup:
    """The document, the worker and the model."""

    def __init__(self, case, worker_class, slow=None):
        import parce
        from parce.treebuilder import TreeBuilder
        self.case = case
        self.lex = lexicons(case["kind"])
        self.root = 0
        self.tf = case["tf"]
        self.log = []
        self.calls = []         # [kind, expected, number of calls]
        self.in_handler = 0
        self.slow = slow
        self.threaded = slow is not None
        self.transformers = [None, self.make_transformer(1), self.make_transformer(2)]
        self.fired = {}
        self.nested = 0
        b = TreeBuilder(self.lex[0] if case["own"] else None)
        self.worker = worker_class(b)
        self.handlers = list(case["handlers"])
        self.text = case["text"]
        self.history = []
        for ev in ("started", "tree_updated", "tree_finished", "transform_finished"):
            self.worker.connect(ev, lambda *args, ev=ev: self.event(ev, args))
        t = self.transformers[self.tf]
        if case["own"] == 2:
            # no root lexicon given, the one the worker has remains in use
            self.doc = parce.Document(None, self.text, worker=self.worker, transformer=t)
        else:
            self.doc = parce.Document(self.lex[0], self.text, worker=self.worker, transformer=t)
        self.sep = case.get("sep", "\n")
        self.doc.block_separator = self.sep
        self.doclog = []
        for ev in ("tree_updated", "tree_finished", "transform_finished"):
            self.doc.connect(ev, lambda *args, ev=ev: self.doclog.append((ev,) + args))
        need(self.doc.worker() is self.worker and self.doc.builder() is b, "worker or builder differ")

    def make_transformer(self, tag):
        from parce.transform import Transform, Transformer
        slow = self.slow

        def make(name):
            def method(self, items):
                if slow:
                    time.sleep(slow)
                return c07.Res(name, (tag, items.arg), list(items))
            return method
        names = set()
        for l in self.lex:
            if l is not None:
                names.update(c07.lexicon_names(l.language))
        self.names = names
        T = type("T{}".format(tag), (Transform,), {n: make(n) for n in names})

        class Tf(Transformer):
            def find_transform(self, language):
                return T()
        return Tf()

    def event(self, ev, args):
        self.log.append((ev,) + args)
        n = self.fired[ev] = self.fired.get(ev, 0) + 1
        if ev == "tree_updated":
            b = self.worker.builder()
            same(args, (b.start, b.end), "arguments of tree_updated")
        if self.in_handler > 2 or not hasattr(self, "doc"):
            return
        for h in self.handlers[:]:
            if h[0] == ev and h[1] == n:
                self.handlers.remove(h)
                self.in_handler += 1
                try:
                    self.op(h[2])
                    if h[3] and ev != "started":
                        self.wait(h[2][1] % 2 if isinstance(h[2][1], int) else 0)
                        self.nested += 1
                finally:
                    self.in_handler -= 1

    def expected(self):
        """The nested tree and the transform of the current text."""
        from parce.treebuilder import build_tree
        tree = build_tree(self.lex[self.root], self.text)
        tf = None
        if self.tf:
            tag = self.tf
            tf = retag(c07.reference(tree, lambda l: {n: "method" for n in self.names}), tag)
        return tree, tf

    def check_tree(self, root, what):
        tree, _ = self.expected()
        need(root is self.worker.builder().root, what + ": another root")
        need(root.lexicon is tree.lexicon, "{}: root lexicon {!r}", what, root.lexicon)
        if nested(root) != nested(tree):
            raise Violation("{}: tree of text {!r} is {!r}, expected {!r}".format(
                what, self.text, show(root), show(tree)))

    def check_transform(self, result, what):
        _, tf = self.expected()
        got = c07.resolve(result)
        if got != tf:
            raise Violation("{}: transform of {!r} is {!r}, expected {!r}".format(what, self.text, got, tf)[:3000])

    def poll(self, what):
        """What is returned must be up to date."""
        r = self.doc.get_root()
        if r is not None:
            self.check_tree(r, what)
        t = self.doc.get_transform()
        if t is not None:
            self.check_transform(t, what)
        return r is not None, t is not None

    def wait(self, which):
        entry = ["wait", None, 0]
        self.calls.append(entry)

        def cb(*args, **kw):
            entry[2] += 1
            need(len(args) == 1 and args[0] is self.doc and not kw, "waiting: callback called with {!r}", args)
        if which:
            t = self.doc.get_transform(True, cb)
            if self.tf:
                self.check_transform(t, "get_transform(True)")
            else:
                need(t is None, "result without transformer")
        else:
            ready = self.doc.get_root() is not None
            r = self.doc.get_root(True, cb)
            if not self.threaded:
                entry[1] = not ready
            need(r is not None, "get_root(True) returned None")
            self.check_tree(r, "get_root(True)")

    def op(self, op):
        k = op[0]
        d = self.doc
        if k == "edit":
            n = len(self.text)
            a = op[1] % (n + 1)
            b = min(a + op[2], n)
            text = self.text[:a] + op[3] + self.text[b:]
            if len(text) > 200 or text == self.text:
                return
            self.history.append(self.text)
            self.text = text
            d[a:b] = op[3]
        elif k == "undo":
            # (what undo means while handlers edit as well is another matter)
            if self.history and not self.case["handlers"]:
                self.text = self.history.pop()
                d.undo()
        elif k == "root":
            self.root = op[1]
            d.set_root_lexicon(self.lex[op[1]])
        elif k == "tf":
            self.tf = op[1]
            d.set_transformer(self.transformers[op[1]])
            need(d.transformer() is self.transformers[self.tf], "transformer not set")
        elif k in ("cb_root", "cb_transform"):
            entry = [k, False, 0]
            on = d if op[1] else self.worker

            def cb(*args, **kw):
                entry[2] += 1
                need(len(args) == 1 and args[0] is on and not kw, "{}: callback called with {!r}", k, args)
                if not self.threaded:
                    self.poll("in a callback")
            f = on.get_root if k == "cb_root" else on.get_transform
            r = f(callback=cb)
            entry[1] = r is None
            if k == "cb_transform" and not self.tf:
                need(r is None, "a transform without transformer")
                entry[1] = False
            if r is not None:
                (self.check_tree if k == "cb_root" else self.check_transform)(r, k)
            elif entry[1]:
                # there are cases that the result itself is None
                if k == "cb_transform" and self.expected()[1] is None:
                    return
            self.calls.append(entry)
        elif k == "wait":
            self.wait(op[1])
        elif k == "token":
            for p in op[1]:
                self.check_token(p % (len(self.text) + 1))
        else:
            raise HarnessError(k)

    def check_token(self, pos):
        t = self.doc.token(pos)
        tree, _ = self.expected()
        tokens = [(x.pos, x.end) for x in tree.tokens()]
        got = t and (t.pos, t.end)
        over = [x for x in tokens if x[0] <= pos < x[1]]
        left = [x for x in tokens if x[1] == pos]
        right = [x for x in tokens if x[0] > pos]
        if over:
            want = over[0]
        elif left:
            want = left[-1]
        elif right and self.sep not in self.text[pos:right[0][0]]:
            want = right[0]
        else:
            if got:
                need(self.sep not in self.text[min(pos, got[0]):max(pos, got[1])],
                     "token({}) in {!r} is on another line: {!r}", pos, self.text, got)
            return
        same(got, want, "token({}) in {!r}".format(pos, self.text))

    def finish(self):
        """Everything is up to date now."""
        r, t = self.poll("at the end")
        need(r, "the tree is not up to date in the end")
        if self.tf and self.expected()[1] is not None:
            need(t, "the transform is not up to date in the end")
        else:
            need(not t, "unexpected transform")
        from parce.lexer import Lexer
        lx = self.lex[self.root]
        want = []
        if lx is not None:
            l = Lexer([lx])
            for e in l.events(self.text):
                pass
            want = l.lexicons[1:]
        same(list(self.doc.open_lexicons()), want, "open lexicons in {!r}".format(self.text))
        need(self.doc.root_lexicon() is lx, "root lexicon")
        need(self.doc.text() == self.text, "text")
        b = self.worker.builder()
        same(self.doc.modified_range(), (b.start, b.end), "modified_range")
        for kind, expected, n in self.calls:
            if expected is None or kind == "cb_transform" and expected and not self.tf:
                need(n <= 1, "{}: callback called {} times", kind, n)
            else:
                same(n, int(expected), kind + ": number of times the callback was called")
        self.check_log()

    def check_log(self):
        log = [l[0] for l in self.log]
        if not self.case["handlers"]:
            state = "idle"
            for e in log:
                ok = {"idle": ("started",), "started": ("tree_updated",), "tree_updated": ("tree_finished",),
                      "tree_finished": ("started", "transform_finished"),
                      "transform_finished": ("started", "transform_finished")}[state]
                need(e in ok, "event {} after {}: {!r}", e, state, log)
                state = e
            if log and self.tf:
                same(state, "transform_finished", "last event")
            elif log:
                need(state in ("tree_finished", "transform_finished"), "last event {}", state)
            if len(self.doclog) == len([e for e in log if e != "started"]):
                same(self.doclog, [l for l in self.log if l[0] != "started"], "events of the document")
        for ev in ("tree_updated", "tree_finished", "transform_finished"):
            need(log.count("tree_updated") == log.count("tree_finished"), "events {!r}", log)


def retag(r, tag):
    if r is None:
        return None
    return (r[0], (tag, r[1]), [(i[0], retag(i[1], tag)) if len(i) == 2 else i for i in r[2]])


def show(root):
    return [(t.pos, t.text, [l.lexicon for l in t.ancestors()][::-1]) for t in root.tokens()]


def check_stepped(case):
    from parce.work import Worker

    class Stepped(Worker):
        def __init__(self, *args):
            super().__init__(*args)
            self.gens = []

        def run_process(self):
            self.gens.append(self.process())

        def step(self, n):
            g = self.gens[n % len(self.gens)]
            for stage in g:
                return
            self.gens.remove(g)
    s = Setup(case, Stepped)
    w = s.worker
    pending = 0
    for n, op in enumerate(case["ops"]):
        if op[0] == "step":
            for i in range(op[2]):
                if w.gens:
                    w.step(op[1])
        elif op[0] in ("wait", "token"):
            if not w.gens:
                s.op(op)
        else:
            if w.gens and op[0] in ("edit", "tf", "root"):
                pending += 1
            s.op(op)
        s.poll("step {} {!r}".format(n, op))
        if not w.gens:
            r = s.doc.get_root()
            need(r is not None, "step {}: nothing is running and the tree is not up to date", n)
    guard = 0
    while w.gens:
        w.step(0)
        s.poll("while finishing")
        guard += 1
        need(guard < 2000, "processing does not come to an end")
    s.finish()
    return pending > 1 or s.nested


def check_sync(case):
    from parce.work import Worker
    s = Setup(case, Worker)
    s.poll("initially")
    for n, op in enumerate(case["ops"]):
        s.op(op)
        r, t = s.poll("step {} {!r}".format(n, op))
        need(r, "step {} {!r}: the tree is not up to date", n, op)
        if s.tf and s.expected()[1] is not None:
            need(t, "step {} {!r}: the transform is not up to date", n, op)
        if op[0] == "edit":
            same(s.doc.get_root(True), s.doc.get_root(), "get_root(True)")
    s.finish()
    return len(s.log) > 12 or s.nested


def gen_background(s):
    c = gen(False)(s)
    c["slow"] = s.pick([0, 0, 1, 3])
    c["sleep"] = [s.pick([0, 0, 0, 1, 3]) for _ in range(5)]
    c["handlers"] = []
    return c


def check_background(case):
    """With a real thread; edits come in at whatever moment it is."""
    import sys
    from parce.work import BackgroundWorker
    errors = []
    old_hook = threading.excepthook
    threading.excepthook = lambda args: errors.append(args.exc_value)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    threads = []

    class BW(BackgroundWorker):
        pass
    try:
        s = Setup(case, BW, case["slow"] / 20000)
        busy = 0
        for n, op in enumerate(case["ops"]):
            z = case["sleep"][n % len(case["sleep"])]
            if z:
                time.sleep(z / 10000)
            if errors:
                break
            busy += s.doc.get_transform() is None and op[0] in ("edit", "tf")
            s.op(op)
            s.poll("step {} {!r}".format(n, op))
        s.wait(0)
        s.wait(1)
        s.wait(0)
        # callbacks are called shortly after it is finished
        end = time.monotonic() + 30
        while time.monotonic() < end and not errors:
            others = [t for t in threading.enumerate() if t is not threading.current_thread()]
            if not others:
                break
            for t in others:
                t.join(1)
        if errors:
            raise Violation("exception in the background: {!r}".format(errors[0])) from errors[0]
        s.finish()
        return busy > 1
    finally:
        threading.excepthook = old_hook
        sys.setswitchinterval(interval)


ASPECTS = [
    Aspect("stepped", gen(True), check_stepped, quick=1200, shards=8, thorough=60000, wall=90,
           rule="more than one change came in while a process was running, or a finished handler waited"),
    Aspect("sync", gen(False), check_sync, quick=1000, shards=4, thorough=50000, wall=90,
           rule="more than 12 events were emitted, or a finished handler waited"),
    Aspect("background", gen_background, check_background, quick=500, shards=8, thorough=20000, wall=90,
           rule="more than one change came in while a result was not ready"),
]
