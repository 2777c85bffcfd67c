"""C09: undo, redo and the modified state."""
from vp.core import Aspect, Violation, need, same

ALPHA = "ab\nxé\r \t\U0001d11e"


def gen_with(s):
    parts = []
    pos = s.int(0, 6)
    for _ in range(s.int(1, 5)):
        r = s.pick([0, 0, 1, 2, 3])
        parts.append([pos, r, s.text(ALPHA, 0 if r else 1, 4, 2)])
        pos += r + s.pick([0 if r else 1, 1, 1, 2, 5])
    return ["with", s.shuffle(parts)]


def gen_op(s):
    k = s.int(0, 19)
    if k <= 2:
        return ["edit", s.int(0, 20), s.pick([0, 0, 1, 2, 5]), s.text(ALPHA, 0, 4, 2)]
    if k <= 5:
        return gen_with(s)
    if k <= 10:
        return ["undo"]
    if k <= 14:
        return ["redo"]
    if k <= 16:
        return ["modified", False]
    if k == 17:
        return ["modified", True]
    if k == 18:
        return s.pick([["clear"], ["undo-in-context"], ["redo-in-context"], ["cancelled", s.text(ALPHA, 1, 3)]])
    return s.pick([["set_text", s.text(ALPHA, 0, 8, 3)], ["replace", s.pick("abx"), s.text(ALPHA, 0, 2)]])


def gen(s):
    return {"cls": s.pick(["Document", "Document", "parce.Document"]), "text": s.text(ALPHA, 0, 20, 8),
            "ops": s.list(gen_op, 1, 40, 14), "enabled": not s.one_in(20)}


def check(case):
    import parce
    from parce import document
    if case["cls"] == "Document":
        d = document.Document(case["text"])
    else:
        d = parce.Document(None, case["text"])
    if not case["enabled"]:
        d.undo_redo_enabled = False
    log = []
    for ev in ("undo_available", "redo_available", "modification_changed"):
        d.connect(ev, lambda v, ev=ev: log.append((ev, v)))
    changes = []
    d.connect("text_change", lambda *a: changes.append(a))

    # model: list of [text, modified]
    states = [[case["text"], False]]
    cur = 0
    back = 0

    def new_state(text):
        nonlocal cur
        if case["enabled"]:
            del states[cur + 1:]
            states.append([text, True])
            cur += 1
        else:
            states[:] = [[text, True]]
    for n, op in enumerate(case["ops"]):
        what = "step {} {!r}".format(n, op)
        old, oldmod = states[cur]
        before = (cur > 0, cur < len(states) - 1, oldmod)
        log.clear()
        changes.clear()
        k = op[0]
        if k == "edit":
            p = min(op[1], len(old))
            e = min(p + op[2], len(old))
            d[p:e] = op[3]
            if old[p:e] != op[3]:
                new_state(old[:p] + op[3] + old[e:])
        elif k == "with":
            parts = {}
            for a, r, t in op[1]:
                a, b = min(a, len(old)), min(a + r, len(old))
                if a in parts or old[a:b] == t:
                    continue
                parts[a] = (b, t)
            with d:
                for a, (b, t) in parts.items():
                    d[a:b] = t
            new = old
            for a in sorted(parts, reverse=True):
                b, t = parts[a]
                new = new[:a] + t + new[b:]
            if parts:
                new_state(new)
        elif k == "set_text":
            d.set_text(op[1])
            if op[1] != old:
                new_state(op[1])
        elif k == "replace":
            d.replace(op[1], op[2])
            if op[1] in old and op[1] != op[2]:
                new_state(old.replace(op[1], op[2]))
        elif k == "undo":
            d.undo()
            if cur > 0:
                cur -= 1
                back += 1
        elif k == "redo":
            d.redo()
            if cur < len(states) - 1:
                cur += 1
                back += 1
        elif k == "modified":
            d.modified = op[1]
            if not op[1]:
                for s in states:
                    s[1] = True
            states[cur][1] = op[1]
        elif k == "clear":
            d.clear_undo_redo()
            states[:] = [states[cur]]
            cur = 0
        elif k in ("undo-in-context", "redo-in-context"):
            try:
                with d:
                    getattr(d, k[:4])()
            except RuntimeError:
                pass
            else:
                raise Violation(what + ": no RuntimeError")
        elif k == "cancelled":
            try:
                with d:
                    d[0:0] = op[1]
                    raise KeyError(op[1])
            except KeyError:
                pass
        text, modified = states[cur]
        same(d.text(), text, what + ": text")
        same(bool(d.modified), modified, what + ": modified")
        after = (cur > 0, cur < len(states) - 1, modified)
        same((d.can_undo(), d.can_redo()), after[:2], what + ": undo and redo available")
        want = [(ev, b) for ev, a, b in zip(
            ("undo_available", "redo_available", "modification_changed"), before, after) if a != b]
        same(sorted(log), sorted(want), what + ": events")
        need(len(changes) <= 1, "{}: more than one change reported: {!r}", what, changes)
        need(bool(changes) or text == old, "{}: no change reported", what)
    return back > 1


ASPECTS = [
    Aspect("history", gen, check, quick=8000, shards=8, thorough=250000,
           rule="more than one undo or redo step was really taken"),
]
