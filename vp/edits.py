"""Generating edit histories."""


def edit(s, n, piece, big=True):
    """One edit [start, removed, added] for a text of length n."""
    k = s.int(0, 11)
    if n == 0:
        return [0, 0, "".join(s.list(piece, 1, 8, 3))]
    pos = s.int(0, n)
    if k <= 3:                      # insert
        return [pos, 0, "".join(s.list(piece, 1, 4, 2))]
    if k <= 6:                      # delete a little
        return [pos, min(n - pos, s.int(1, 4)), ""]
    if k <= 8:                      # replace a little
        return [pos, min(n - pos, s.int(1, 6)), "".join(s.list(piece, 1, 4, 2))]
    if k == 9:                      # at the end
        return [n, 0, "".join(s.list(piece, 1, 3, 2))]
    if k == 10:                     # at the begin
        return [0, min(n, s.int(0, 3)), "".join(s.list(piece, 0, 3, 1))]
    if not big:
        return [pos, 0, piece(s)]
    r = s.int(0, n - pos)           # replace much
    return [pos, r, "".join(s.list(piece, 0, 6, 2))]


def apply(text, e):
    return text[:e[0]] + e[2] + text[e[0] + e[1]:]


def history(s, text, piece, min=1, max=8, avg=4, big=True):
    out = []

    def one(s):
        nonlocal text
        e = edit(s, len(text), piece, big)
        text = apply(text, e)
        return e
    return s.list(one, min, max, avg)
