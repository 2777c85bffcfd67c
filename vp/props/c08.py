"""C08: a mutable string behaves as the str it holds; edit contexts are atomic."""
from vp.core import Aspect, Violation, need, same

ALPHA = "ab\n xé\U0001d11e\r\t"


class Boom(Exception):
    pass


def gen_key(s):
    k = s.int(0, 6)
    i, j = s.int(0, 40) - 15, s.int(0, 40) - 15
    if k == 0:
        return ["int", i]
    if k == 1:
        return ["slice", None, j]
    if k == 2:
        return ["slice", i, None]
    if k == 3:
        return ["slice", None, None]
    if k == 4:
        return ["slice", i, i]
    return ["slice", i, j]


def gen_edit(s):
    k = s.int(0, 9)
    if k <= 4:
        return ["set", gen_key(s), s.text(ALPHA, 0, 5, 2)]
    if k <= 6:
        return ["del", gen_key(s)]
    if k == 7:
        return ["insert", s.int(0, 30), s.text(ALPHA, 0, 4, 2)]
    if k == 8:
        return ["append", s.text(ALPHA, 0, 4, 2)]
    return ["iadd", s.text(ALPHA, 0, 4, 2)]


def gen_op(s):
    k = s.int(0, 11)
    if k <= 4:
        return gen_edit(s)
    if k == 5:
        return ["set_text", s.text(ALPHA, 0, 12, 5)]
    if k == 6:
        return ["get", gen_key(s)]
    return gen_with(s)


def gen_with(s):
    """A context: a number of (mostly not overlapping) edits in original coordinates."""
    parts = []
    pos = s.int(0, 6)
    for _ in range(s.int(0, 5)):
        r = s.pick([0, 0, 1, 2, 3])
        parts.append([pos, r, s.text(ALPHA, 0, 4, 2)])
        if s.one_in(5):
            # a second one at the same place, that only inserts
            parts.append([pos, 0, s.text(ALPHA, 1, 3, 1.5)])
        pos += r + s.pick([0, 1, 1, 2, 5])
    if s.one_in(5):
        # anything
        parts = [[s.int(0, 12), s.int(0, 6), s.text(ALPHA, 0, 4, 2)] for _ in range(s.int(2, 4))]
    parts = s.shuffle(parts)
    return ["with", parts, s.pick(["ok", "ok", "ok", "ok", "raise", "nested", "nested-raise", "nested-caught"]),
            s.int(0, 4)]


def gen(s):
    return {"cls": s.pick(["Document", "MutableString", "custom", "parce.Document"]),
            "text": s.text(ALPHA, 0, 30, 10), "ops": s.list(gen_op, 1, 10, 5)}


def to_key(k):
    return k[1] if k[0] == "int" else slice(k[1], k[2])


class Model:
    def __init__(self, text):
        self.text = text

    def region(self, k):
        n = len(self.text)
        if k[0] == "int":
            i = k[1] + n if k[1] < 0 else k[1]
            if not 0 <= i < n:
                return None
            return i, i + 1
        a, b, _ = slice(k[1], k[2]).indices(n)
        return a, max(a, b)


def resolve(model, op):
    """Return the region and text of an edit, or None if it raises IndexError."""
    n = len(model.text)
    if op[0] in ("set", "del"):
        r = model.region(op[1])
        return r and (r[0], r[1], op[2] if op[0] == "set" else "")
    if op[0] == "insert":
        p = min(op[1], n)
        return p, p, op[2]
    return n, n, op[1]


def perform(d, op):
    if op[0] == "set":
        d[to_key(op[1])] = op[2]
    elif op[0] == "del":
        del d[to_key(op[1])]
    elif op[0] == "insert":
        d.insert(op[1], op[2])
    elif op[0] == "append":
        d.append(op[1])
    else:
        old = d
        d += op[1]
        need(d is old, "+= returned another object")


def merge(text, parts):
    """Return (new text, first start, last end) or "overlap" for edits in a context.

    Edits that leave the text they replace the same do not count. Returns
    None if it is ambiguous (two replacements starting at the same place).
    """
    real = []
    for a, b, t in parts:
        if text[a:b] != t:
            real.append((a, b, t))
    if not real:
        return text, None, None
    groups = {}
    for a, b, t in real:
        groups.setdefault(a, []).append((b, t))
    end = 0
    out = []
    pos = 0
    for a in sorted(groups):
        if a < end:
            return "overlap"
        g = groups[a]
        if sum(1 for b, t in g if b > a) > 1:
            return None
        out.append(text[pos:a])
        out.extend(t for b, t in g)
        end = pos = max(b for b, t in g)
    out.append(text[pos:])
    return "".join(out), min(groups), end


def make(case, log):
    import parce
    from parce import document, mutablestring
    name = case["cls"]
    text = case["text"]
    if name == "custom":
        class Custom(mutablestring.AbstractMutableString):
            def __init__(self, text):
                super().__init__()
                self.parts = [text]

            def text(self):
                return "".join(self.parts)

            def _update_text(self, changes):
                changes = list(changes)
                t = self.text()
                last = 0
                for a, b, n in changes:
                    need(last <= a <= b <= len(t), "changes {!r} for {!r} are not sorted", changes, t)
                    last = b
                for a, b, n in reversed(changes):
                    t = t[:a] + n + t[b:]
                self.parts = list(t)

            def text_changed(self, *args):
                log.append(args)
        return Custom(text)
    base = {"Document": document.Document, "MutableString": mutablestring.MutableString,
            "parce.Document": parce.Document}[name]

    class Cls(base):
        def text_changed(self, *args):
            log.append(args)
            super().text_changed(*args)
    if name == "parce.Document":
        return Cls(None, text)
    return Cls(text)


def check(case):
    log = []
    events = []
    d = make(case, log)
    m = Model(case["text"])
    has_events = hasattr(d, "connect")
    revision = 0
    if has_events:
        d.connect("text_change", lambda *a: events.append(a))
        d.connect("text_changed", lambda: events.append(None))
    interesting = 0
    same(d.text(), m.text, "initial text")
    for n, op in enumerate(case["ops"]):
        what = "step {} {!r} on {!r}".format(n, op, m.text)
        old = m.text
        log.clear()
        events.clear()
        region = None
        if op[0] == "get":
            r = m.region(op[1])
            if r is None:
                try:
                    d[to_key(op[1])]
                except IndexError:
                    pass
                else:
                    raise Violation(what + ": no IndexError")
            else:
                same(d[to_key(op[1])], m.text[r[0]:r[1]], what)
        elif op[0] == "set_text":
            d.set_text(op[1])
            m.text = op[1]
        elif op[0] == "with":
            interesting += do_with(d, m, op, what, case["cls"]) or 0
        else:
            r = resolve(m, op)
            if r is None:
                try:
                    perform(d, op)
                except IndexError:
                    pass
                else:
                    raise Violation(what + ": no IndexError")
            else:
                perform(d, op)
                m.text = m.text[:r[0]] + r[2] + m.text[r[1]:]
        same(d.text(), m.text, what + ": text")
        same(len(d), len(m.text), what + ": length")
        same(str(d), m.text, what + ": str()")
        same(d + "+", m.text + "+", what + ": addition")
        same("+" + d, "+" + m.text, what + ": right addition")
        same(d[:], m.text, what + ": whole slice")
        # notifications
        if len(log) > 1:
            raise Violation("{}: {} notifications of one change: {!r}".format(what, len(log), log))
        if log:
            p, removed, added = log[0]
            need(0 <= p and removed >= 0 and added >= 0 and p + removed <= len(old)
                 and old[:p] + m.text[p:p + added] + old[p + removed:] == m.text
                 and len(old) - removed + added == len(m.text),
                 "{}: reported change {!r} does not describe the change to {!r}", what, log[0], m.text)
            revision += 1
        else:
            same(m.text, old, what + ": text changed without notification")
        if has_events:
            same(events, [tuple(log[0]), None] if log else [], what + ": events")
            same(d.revision(), revision, what + ": revision")
    return interesting


def do_with(d, m, op, what, cls):
    _, parts, mode, depth = op
    n = len(m.text)
    parts = [(min(a, n), min(a + r, n), t) for a, r, t in parts]
    res = merge(m.text, parts)
    if res is None:
        return 0
    half = min(depth, len(parts))

    def edits(ps):
        for a, b, t in ps:
            d[a:b] = t
            same(d.text(), m.text, what + ": text inside the context")
            same(len(d), n, what + ": length inside the context")
    try:
        if mode in ("ok", "raise"):
            with d as x:
                need(x is d, "the context is another object")
                edits(parts[:half])
                if mode == "ok":
                    try:
                        d.set_text("xyz")
                    except RuntimeError:
                        pass
                    else:
                        raise Violation(what + ": set_text() worked in a context")
                    edits(parts[half:])
                else:
                    raise Boom()
        elif mode in ("nested", "nested-raise"):
            with d:
                edits(parts[:half])
                with d:
                    edits(parts[half:])
                    if mode == "nested-raise":
                        raise Boom()
                same(d.text(), m.text, what + ": text after the inner context")
        else:       # nested-caught: the edits made up to then are cancelled
            with d:
                edits(parts[:half])
                try:
                    with d:
                        d[0:0] = "zzz"
                        raise Boom()
                except Boom:
                    pass
                edits(parts[half:])
            res = merge(m.text, parts[half:])
            if res is None:
                raise RuntimeError
    except Boom:
        need(mode in ("raise", "nested-raise"), what + ": exception")
        return len(parts) > 1
    except RuntimeError as e:
        if res is None:     # ambiguous, resynchronize
            m.text = d.text()
            return 0
        need(res == "overlap", "{}: {!r} for edits that do not overlap", what, e)
        return 1
    if res is None:
        m.text = d.text()
        return 0
    need(mode not in ("raise", "nested-raise"), what + ": exception got lost")
    need(res != "overlap", "{}: overlapping edits were accepted, giving {!r}", what, d.text())
    new, a, b = res
    m.text = new
    return len(parts) > 1


ASPECTS = [
    Aspect("model", gen, check, quick=10000, shards=8, thorough=400000,
           rule="a context with more than one edit was left"),
]
