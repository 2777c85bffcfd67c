"""C05: edits that are queued, merged or arrive while the tree is being built."""
import contextlib

from vp import edits as E
from vp import langs as B
from vp import langgen as G
from vp.builderutil import actual_tokens, check_range, covering
from vp.core import Aspect, HarnessError, Skip, Violation, need, same
from vp.locality import Flat, is_local
from vp.treecheck import check_tree, nested, same_nested

STAGES = 8


def gen_round(s, piece, hook):
    """A round: edits queued before processing, at stages, and at hook calls."""
    def e(s):
        if s.one_in(12):
            return ["root", s.int(0, 14)]
        return ["edit", s.int(0, 199), s.pick([0, 0, 0, 1, 1, 2, 3, 5, 9, 30]),
                "".join(s.list(piece, 0, 3, 1.5))]
    r = {"queue": s.list(e, 1, 4, 1.8), "stage": [], "hook": []}
    if s.int(0, 1):
        r["stage"] = s.list(lambda s: [s.int(0, 3), e(s)], 0, 2, 1)
    if hook:
        r["hook"] = s.list(lambda s: [s.int(0, 40), e(s)], 0, 3, 1.5)
    return r


def gen_local(s):
    spec = G.language_spec(s, local=True)
    piece = G.piece_gen(spec)
    text = "".join(s.list(piece, 0, 60, 25))
    return {"spec": spec, "text": text, "rounds": s.list(lambda s: gen_round(s, piece, True), 1, 3)}


def gen_bundled(s):
    qual = s.pick(B.QUALNAMES)
    piece = B.pieces(qual)
    text = "".join(s.list(piece, 0, 50, 20))
    return {"lang": qual, "text": text, "rounds": s.list(lambda s: gen_round(s, piece, True), 1, 3)}


def make_stepper():
    from parce.treebuilder import TreeBuilder

    class Stepper(TreeBuilder):
        """A builder of which the harness decides when the next stage runs."""
        def __init__(self, *args):
            super().__init__(*args)
            self.gens = []

        def start_processing(self):
            # a process that has yielded "done" only has its notifications left
            self.gens.append(self.process())
            if len(self.gens) > 2:
                raise Violation("a process was started while one was running")

        def step(self):
            for stage in self.gens[0]:
                if stage != "done" and len(self.gens) > 1:
                    raise Violation("two processes were running at the same time")
                return stage
            del self.gens[0]
            return True
    return Stepper


class Run:
    def __init__(self, lexicons, text, precheck=None):
        self.lexicons = lexicons
        self.root = 0
        self.text = text
        self.precheck = precheck
        self.versions = []      # the texts since the tree was complete
        self.steps = []         # the edits between them, or None for a root change
        self.builder = None
        self.events = 0
        self.pending = []
        self.injected = 0

    def hook(self):
        """Called for every match during lexing."""
        if self.builder is None:
            return
        self.events += 1
        while self.pending and self.pending[0][0] <= self.events:
            self.apply(self.pending.pop(0)[1])
            self.injected += 1

    def apply(self, op):
        if op[0] == "root":
            self.root = op[1] % len(self.lexicons)
            self.steps.append(None)
            self.versions.append(self.text)
            self.builder.rebuild(self.text, self.lexicons[self.root])
            return
        n = len(self.text)
        start = op[1] % (n + 1)
        removed = min(op[2], n - start)
        text = self.text[:start] + op[3] + self.text[start + removed:]
        if len(text) > 400:
            return
        if self.precheck:
            b, self.builder = self.builder, None    # do not count these matches
            try:
                self.precheck(text)
            finally:
                self.builder = b
        self.text = text
        self.steps.append((start, removed, len(op[3])))
        self.versions.append(text)
        self.builder.rebuild(text, False, start, removed, len(op[3]))


def run_rounds(lexicons, case, run, want_range=False):
    from parce.treebuilder import TreeBuilder
    text = run.text
    builder = make_stepper()(lexicons[0])
    builder.rebuild(text)
    while builder.gens:
        builder.step()
    run.builder = builder
    interesting = 0
    for number, r in enumerate(case["rounds"]):
        what = "round {}".format(number)
        run.versions = [run.text]
        run.steps = []
        run.events = 0
        run.pending = sorted(([h, op] for h, op in r["hook"]), key=lambda x: x[0])
        log = []
        before = actual_tokens(builder.root)
        old_root = builder.root.lexicon
        for op in r["queue"]:
            run.apply(op)
        k = 0
        guard = 0
        while builder.gens:
            stage = builder.step()
            if want_range and stage == "done":
                interesting += check_updated(lexicons, run, before, what)
                before = actual_tokens(builder.root)
                run.versions = [run.text]
                run.steps = []
            for at, op in r["stage"]:
                if at == k:
                    run.apply(op)
            k += 1
            guard += 1
            if guard > 200:
                raise Violation(what + ": processing does not come to an end")
        run.pending = []
        run.builder = None
        try:
            lexicon = lexicons[run.root]
            if not want_range:
                need(not builder.busy, "{}: still busy after processing", what)
                in_domain = local_history(lexicon, run)
                flat = Flat(lexicon, run.text)
                if in_domain:
                    got = nested(builder.root)
                    want = nested(flat.tree)
                    need(builder.root.lexicon is lexicon, "{}: root lexicon is {!r}, expected {!r}",
                         what, builder.root.lexicon, lexicon)
                    if not same_nested(got, want):
                        raise Violation("{}: tree of {!r} is {!r}, built from scratch it is {!r}".format(
                            what, run.text, got, want))
                    check_tree(builder.root, run.text, what)
                    need(len(builder.lexicons) == len(flat.lexicons) and all(
                        x is y for x, y in zip(builder.lexicons, flat.lexicons)),
                        "{}: open lexicons are {!r}, from scratch {!r}", what,
                        builder.lexicons, flat.lexicons)
                    interesting += len(run.steps) > 1 and len(flat.tokens) > 10
                else:
                    # start the next round from a correct tree
                    fresh = make_stepper()(lexicon)
                    builder = fresh
                    builder.rebuild(run.text)
                    while builder.gens:
                        builder.step()
        finally:
            run.builder = builder
    return interesting


def check_updated(lexicons, run, before, what):
    builder = run.builder
    if any(s is None for s in run.steps) or not run.steps:
        need(builder.root.lexicon is lexicons[run.root], what + ": wrong root lexicon")
        need(0 <= builder.start <= builder.end <= len(run.text),
             "{}: updated range {}-{} in a text of length {}", what, builder.start, builder.end,
             len(run.text))
        if run.steps:
            same((builder.start, builder.end), (0, len(run.text)),
                 what + ": updated range after setting a root lexicon")
        return 0
    shift = len(run.text) - len(run.versions[0])
    s, rm, ad = covering(run.steps)
    check_range(before, actual_tokens(builder.root), builder.start, builder.end,
                len(run.text), shift, what + " " + repr(run.steps), [(s, s + ad)])
    return len(run.steps) > 1 and len(before) > 10


def local_history(lexicon, run):
    """Is every combination of successive edits a local edit?"""
    if lexicon is None:
        return True     # no tokens at all
    last = max((i for i, s in enumerate(run.steps) if s is None), default=-1)
    steps = run.steps[last + 1:]
    versions = run.versions[last + 1:]
    if len(set(versions)) == 1 and not steps:
        return True
    flats = [Flat(lexicon, v) for v in versions]
    for i in range(len(steps)):
        for j in range(i, len(steps)):
            if not is_local(flats[i], flats[j + 1], *covering(steps[i:j + 1])):
                return False
    return True


@G.guard
def check_local(case, want_range=False):
    ref = G.RefLexer(case["spec"], max_steps=6000, anchored=True)
    roots = [(i, arg) for arg in (None, "a", "b") for i in range(len(case["spec"]))]

    def precheck(text):
        for r in roots:
            ref.run(text, r)
    precheck(case["text"])
    run = Run([], case["text"], precheck)
    lang = G.build_language(case["spec"], run.hook)
    run.lexicons = [getattr(lang, "l{}".format(i)) if arg is None else
                    getattr(lang, "l{}".format(i))(arg) for i, arg in roots] + [None]
    res = run_rounds(run.lexicons, case, run, want_range)
    return res


@contextlib.contextmanager
def lexer_hook(hook):
    """Call hook for every event a lexer yields."""
    from parce.lexer import Lexer
    original = Lexer.events

    def events(self, *args, **kwargs):
        for e in original(self, *args, **kwargs):
            hook()
            yield e
    Lexer.events = events
    try:
        yield
    finally:
        Lexer.events = original


def check_bundled(case, want_range=False):
    lexicons = [B.lexicon(case["lang"]), None]
    run = Run(lexicons, case["text"])
    with lexer_hook(run.hook):
        return run_rounds(lexicons, case, run, want_range)


ASPECTS = [
    Aspect("midbuild", gen_local, check_local, quick=1500, shards=8, thorough=40000,
           rule="a round with more than one edit led to a tree of more than 10 tokens"),
    Aspect("bundled", gen_bundled, check_bundled, quick=1000, shards=8, thorough=30000,
           rule="a round with more than one edit led to a tree of more than 10 tokens"),
]
