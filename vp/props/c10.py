"""C10: cursors follow the text."""
from vp.core import Aspect, Violation, need, same

ALPHA = "ab\nx \r\U0001d11e"


def gen_changes(s):
    """Changes that do not touch each other, in original coordinates."""
    parts = []
    pos = s.int(0, 8)
    for _ in range(s.int(1, 5)):
        r = s.pick([0, 0, 1, 2, 3, 6])
        parts.append([pos, r, s.text(ALPHA, 0 if r else 1, 5, 2)])
        pos += r + s.pick([1, 1, 2, 3, 5, 8])
    return s.shuffle(parts)


def gen_op(s):
    k = s.int(0, 9)
    if k <= 3:
        return ["edit", s.int(0, 30), s.pick([0, 0, 1, 2, 5]), s.text(ALPHA, 0, 5, 2)]
    if k <= 6:
        return ["with", gen_changes(s)]
    if k == 7:
        return ["key", s.int(0, 9), s.text(ALPHA, 0, 4)]
    if k == 8:
        return s.pick([["undo"], ["redo"]])
    return ["move", s.int(0, 9), s.int(0, 30), s.pick([-1, 0, 1, 3, 30])]


def gen(s):
    return {"text": s.text(ALPHA, 0, 40, 20),
            "cursors": s.list(lambda s: [s.int(0, 40), s.pick([-1, 0, 1, 2, 5, 9, 40])], 1, 7, 3),
            "ops": s.list(gen_op, 1, 8, 3)}


def new_pos(p, changes):
    """changes: list of (start, end, text) not touching each other, sorted."""
    delta = 0
    for a, b, t in changes:
        if p <= a:
            break
        if p <= b:
            return a + delta
        delta += len(t) - (b - a)
    return p + delta


def new_end(e, changes):
    if e is None:
        return None
    delta = 0
    for a, b, t in changes:
        if e < a:
            break
        if e <= b:
            return a + delta + len(t)
        delta += len(t) - (b - a)
    return e + delta


def place(doc, c):
    """Return pos, end for cursor [pos, length], length -1 meaning None."""
    n = len(doc)
    p = min(c[0], n)
    return p, None if c[1] == -1 else min(p + c[1], n)


def common(old, new):
    """A single change describing the difference between two texts is ambiguous, so not used."""


def check(case):
    import gc
    from parce.document import Cursor, Document
    d = Document(case["text"])
    text = case["text"]
    live = []
    for c in case["cursors"]:
        p, e = place(text, c)
        cur = Cursor(d, p, e)
        live.append([cur, p, e])
    interesting = 0
    undo = []
    redo = []

    def rev(changes, text):
        out = []
        delta = 0
        for a, b, t in changes:
            out.append((a + delta, a + delta + len(t), text[a:b]))
            delta += len(t) - (b - a)
        return out
    for n, op in enumerate(case["ops"]):
        what = "step {} {!r} on {!r}".format(n, op, text)
        changes = []
        if op[0] == "edit":
            a = min(op[1], len(text))
            b = min(a + op[2], len(text))
            d[a:b] = op[3]
            if text[a:b] != op[3]:
                changes = [(a, b, op[3])]
        elif op[0] == "with":
            parts = []
            last = -1
            with d:
                for a, r, t in op[1]:
                    a, b = min(a, len(text)), min(a + r, len(text))
                    if text[a:b] == t or any(not (b < x[0] or a > x[1]) for x in parts):
                        continue
                    parts.append((a, b, t))
                    d[a:b] = t
            changes = sorted(parts)
        elif op[0] == "key":
            cur, p, e = live[op[1] % len(live)]
            same(d[cur], text[p:e], what + ": cursor as key")
            same(cur.text(), text[p:e], what + ": text of the cursor")
            d[cur] = op[2]
            e = len(text) if e is None else e
            if text[p:e] != op[2]:
                changes = [(p, e, op[2])]
        elif op[0] == "undo":
            if undo:
                changes = undo.pop()
                redo.append(rev(changes, text))
            d.undo()
        elif op[0] == "redo":
            if redo:
                changes = redo.pop()
                undo.append(rev(changes, text))
            d.redo()
        else:
            c = live[op[1] % len(live)]
            p, e = place(text, op[2:])
            c[0].select(p, e)
            c[1:] = p, e
        if op[0] in ("edit", "with", "key") and changes:
            undo.append(rev(changes, text))
            redo.clear()
        if op[0] in ("undo", "redo"):
            # in an undo, changes can touch each other: the outcome is open
            if any(x[1] >= y[0] for x, y in zip(changes, changes[1:])):
                return interesting
        for a, b, t in reversed(changes):
            text = text[:a] + t + text[b:]
        same(d.text(), text, what)
        for i, c in enumerate(live):
            cur, p, e = c
            c[1:] = new_pos(p, changes), new_end(e, changes)
            same((cur.pos, cur.end), tuple(c[1:]), "{}: cursor {} that was at {!r}".format(what, i, (p, e)))
            if changes and len(changes) > 1:
                interesting += 1
            same(cur.selection(), (c[1], len(text) if c[2] is None else c[2]), what + ": selection()")
            same(bool(cur.has_selection()), c[1] < (len(text) if c[2] is None else c[2]), what + ": has_selection()")
    return interesting


ASPECTS = [
    Aspect("follow", gen, check, quick=30000, shards=8, thorough=800000,
           rule="cursors were in place while a context with more than one change was applied"),
]
