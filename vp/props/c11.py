"""C11: blocks (lines) and cursor movement agree with the text."""
from vp.core import Aspect, Violation, need, same

SEPS = ["\n", "\n", "\n", ";", "\r\n"]
CHARS = [None, " ", "ab", "\n ", "x"]


def gen(s):
    sep = s.pick(SEPS)
    text = "".join(s.list(lambda s: s.pick([sep, "a", "b ", " ", "\t", "xy", "é"]), 0, 30, 12))
    return {"sep": sep, "text": text,
            "pos": [s.int(0, 40) for _ in range(4)],
            "num": [s.int(0, 24) - 12 for _ in range(3)],
            "ops": s.list(lambda s: [s.int(0, 40), s.pick([-1, 0, 1, 3, 10, 40]), s.pick(OPS),
                                     s.pick(CHARS)], 0, 5, 3)}


OPS = ["strip", "lstrip", "rstrip", "select_start_of_block", "select_end_of_block",
       "move_start_of_block", "move_end_of_block", "select_all", "select_none", "blocks", "block",
       "select"]


def lines_of(text, sep):
    out = []
    pos = 0
    for l in text.split(sep):
        out.append((pos, pos + len(l)))
        pos += len(l) + len(sep)
    return out


def line_at(lines, pos):
    """The index of the line a position is in."""
    i = 0
    for n, (a, b) in enumerate(lines):
        if a <= pos:
            i = n
    return i


def check(case):
    from parce.document import Cursor, Document
    sep, text = case["sep"], case["text"]
    if sep == "\n":
        d = Document(text)
    else:
        d = type("D", (Document,), {"block_separator": sep})(text)
    lines = lines_of(text, sep)
    n = len(text)

    def span(b):
        return b.pos, b.end

    same(d.block_count(), len(lines), "block_count")
    blocks = list(d.blocks())
    same([span(b) for b in blocks], lines, "blocks of {!r}".format(text))
    same([b.text() for b in blocks], text.split(sep), "text of the blocks")
    same([len(b) for b in blocks], [b - a for a, b in lines], "length of the blocks")
    same([b.block_number for b in blocks], list(range(len(lines))), "numbers of the blocks")
    same([b.is_first() for b in blocks], [i == 0 for i in range(len(lines))], "is_first")
    same([b.is_last() for b in blocks], [i == len(lines) - 1 for i in range(len(lines))], "is_last")
    for p in case["pos"]:
        what = "position {} in {!r}".format(p, text)
        i = line_at(lines, p)
        b = d.find_block(p)
        same(span(b), lines[i], what + ": find_block")
        same(b.block_number, i, what + ": block number")
        # walk
        f = b
        k = i
        while True:
            g = f.next_block()
            if g is None:
                break
            k += 1
            need(k < len(lines), what + ": too many next blocks")
            same(span(g), lines[k], what + ": next_block")
            same(g.block_number, k, what + ": number of the next block")
            f = g
        same(k, len(lines) - 1, what + ": last block reached")
        f = d.find_block(p)
        k = i
        while True:
            g = f.previous_block()
            if g is None:
                break
            k -= 1
            need(k >= 0, what + ": too many previous blocks")
            same(span(g), lines[k], what + ": previous_block")
            same(g.block_number, k, what + ": number of the previous block")
            f = g
        same(k, 0, what + ": first block reached")
        if p <= n and not (len(sep) > 1 and text[p - 1:p + 1] == sep):
            same(d.find_start_of_block(p), lines[i][0], what + ": start of block")
            same(d.find_end_of_block(p), lines[i][1], what + ": end of block")
        for q in case["pos"]:
            want = lines[i:i + 1] + [l for l in lines[i + 1:] if l[0] < q]
            same([span(x) for x in d.blocks(p, q)], want, "{}: blocks until {}".format(what, q))
            c, e = d.find_block(p), d.find_block(q)
            j = line_at(lines, q)
            same((c == e, c != e, c < e, c <= e, c > e, c >= e),
                 (i == j, i != j, i < j, i <= j, i > j, i >= j), what + ": comparison with block at {}".format(q))
        same([span(x) for x in d.blocks(p)], lines[i:], what + ": blocks from there")
    for num in case["num"]:
        what = "block {} of {!r}".format(num, text)
        b = d.find_block_by_number(num)
        if -len(lines) <= num < len(lines):
            need(b is not None, what + " not found")
            same(span(b), lines[num], what)
            same(b.block_number, num % len(lines), what + ": block_number")
        else:
            need(b is None, "{} is {!r}", what, b)
    for p, l, op, chars in case["ops"]:
        p = min(p, n)
        e = None if l == -1 else min(p + l, n)
        what = "{}({!r}) of cursor {!r} in {!r}".format(op, chars, (p, e), text)
        if len(sep) > 1 and any(text[x - 1:x + 1] == sep for x in (p, e) if x):
            continue
        c = Cursor(d, p, e)
        for other in (case["ops"][0], case["ops"][-1]):
            # cursors are equal if both ends are, and are ordered by position
            p2 = min(other[0], n)
            for e2 in (e, p2, None):
                o = Cursor(d, p2, e2)
                same((c == o, c != o, c < o, c <= o, c > o, c >= o),
                     ((p, e) == (p2, e2), (p, e) != (p2, e2), p < p2, p <= p2, p > p2, p >= p2),
                     "comparison of cursors {!r} and {!r}".format((p, e), (p2, e2)))
        sel = text[p:e]
        if l == 40 and op in ("strip", "rstrip"):
            # an end after the end of the text
            far = Cursor(d, p, n + 7)
            getattr(far, op)(chars)
            same(far.text(), getattr(text[p:], op)(chars), what + ": selected text, end after the end of the text")
        q = n if e is None else e
        if op in ("strip", "lstrip", "rstrip"):
            r = getattr(c, op)(chars)
            same(c.text(), getattr(sel, op)(chars), what + ": selected text")
            a, b = c.selection()
            need(p <= a <= b <= q, "{}: selection {}-{}", what, a, b)
            if op == "lstrip":
                same((c.pos, c.end), (p + len(sel) - len(sel.lstrip(chars)), e), what)
            elif op == "rstrip":
                same((a, b), (p, p + len(sel.rstrip(chars))), what)
        elif op == "blocks":
            i = line_at(lines, p)
            if e is None:
                same([span(x) for x in c.blocks()], lines[i:], what)
            else:
                same([span(x) for x in c.blocks()], lines[i:i + 1] + [x for x in lines[i + 1:] if x[0] < e], what)
            continue
        elif op == "block":
            same(span(c.block()), lines[line_at(lines, p)], what)
            continue
        elif op == "select":
            r = c.select(0, n)
            same((c.pos, c.end), (0, n), what)
            need(c.select(p) is c, what)
            same((c.pos, c.end), (p, p), what)
        else:
            r = getattr(c, op)()
            ls, le = lines[line_at(lines, p)], lines[line_at(lines, q)]
            want = {"select_start_of_block": (ls[0], e),
                    "select_end_of_block": (p, e if e is None else le[1]),
                    "move_start_of_block": (ls[0], ls[0]),
                    "move_end_of_block": (ls[1], ls[1]),
                    "select_all": (0, None),
                    "select_none": (p, p)}[op]
            same((c.pos, c.end), want, what)
        need(r is c, what + ": cursor not returned")
    return len(lines) > 2


ASPECTS = [
    Aspect("blocks", gen, check, quick=15000, shards=8, thorough=500000,
           rule="the text has more than two lines"),
]
