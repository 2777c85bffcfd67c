"""C12: replace, re_sub, translate and trim do what they do on a plain string."""
import re

from vp.core import Aspect, Skip, Violation, need, same

WORDS = ["a", "b", "ab", "aba", "abab", "ba", "foo", "foobar", "bar", "x", "é", ".", "a.b", "\\", "[", "\n", " ", "\t", "  "]
PATTERNS = [r"a", r"a+", r"a*", r"\w+", r"(a)(b)?", r"(?P<n>\w)(?P=n)", r"$", r"^", r"\b", r"x?", r"(?=a)|a",
            r"[ \t]+$", r"(a|b)+?", r"\n", r".", r"(?<=a)b", r"A", r"\s*"]
REPL = ["", "x", "a", r"[\g<0>]", r"\\", "\\n", "b\n", "QQ"]
GREPL = {r"(a)(b)?": [r"\2\1", r"<\1>"], r"(?P<n>\w)(?P=n)": [r"\g<n>", r"\1-"], r"(a|b)+?": [r"\1\1"]}


def gen(s):
    text = "".join(s.list(lambda s: s.pick(WORDS), 0, 25, 10))
    k = s.int(0, 3)
    if k == 0:
        op = ["replace", s.pick(WORDS), s.pick(WORDS + [""])]
        if s.one_in(10):
            op[1] = ""
    elif k == 1:
        p = s.pick(PATTERNS)
        op = ["re_sub", p, s.pick(REPL + GREPL.get(p, [])), s.pick([0, 0, re.M, re.I, re.S]), s.int(0, 2)]
    elif k == 2:
        keys = s.list(lambda s: s.pick([w for w in WORDS]), 1, 5, 3)
        op = ["translate", {w: s.pick(WORDS + [""]) for w in keys}, bool(s.int(0, 1))]
    else:
        op = ["trim"]
    return {"text": text, "op": op, "start": s.pick([None, None, 0, s.int(0, 30)]),
            "end": s.pick([None, None, s.int(0, 40)]), "count": s.pick([0, 0, 0, 1, 2, 3])}


def occurrences(text, mapping, whole):
    """Replace leftmost-longest occurrences; yield (start, end, value)."""
    keys = sorted(mapping, key=len, reverse=True)

    def boundary(i):
        a = i > 0 and re.match(r"\w", text[i - 1])
        b = i < len(text) and re.match(r"\w", text[i])
        return bool(a) != bool(b)
    i = 0
    while i < len(text):
        for k in keys:
            if text.startswith(k, i) and (not whole or boundary(i) and boundary(i + len(k))):
                yield i, i + len(k), mapping[k]
                i += len(k)
                break
        else:
            i += 1


def check(case):
    from parce.document import Document
    text, op = case["text"], case["op"]
    n = len(text)
    start = case["start"]
    end = case["end"]
    a = min(start or 0, n)
    b = n if end is None else max(a, min(end, n))
    kw = {}
    if start is not None:
        kw["start"] = start
    if end is not None:
        kw["end"] = end
    count = case["count"]
    if op[0] != "trim" and count:
        kw["count"] = count
    region = text[a:b]
    d = Document(text)
    changes = []
    d.connect("text_change", lambda *args: changes.append(args))
    what = "{!r} with {!r} on {!r}".format(op, kw, text)
    if op[0] == "replace":
        d.replace(op[1], op[2], **kw)
        new = region.replace(op[1], op[2], count or -1)
    elif op[0] == "re_sub":
        pat, repl, flags = op[1:4]
        if op[4] == 0:
            d.re_sub(pat, repl, re_flags=flags, **kw)
        elif op[4] == 1:
            d.re_sub(re.compile(pat, flags), repl, **kw)
        else:
            d.re_sub(pat, lambda m: m.expand(repl), re_flags=flags, **kw)
        new = re.sub(pat, repl, region, count=count, flags=flags)
    elif op[0] == "translate":
        mapping, whole = op[1:]
        d.translate(mapping, whole_words=whole, **kw)
        occ = list(occurrences(region, mapping, whole))
        if count:
            occ = occ[:count]
        new = region
        for x, y, v in reversed(occ):
            new = new[:x] + v + new[y:]
    else:
        d.trim(**kw)
        new = re.sub(r"[ \t]+(?=\n|\Z)", "", region)
    want = text[:a] + new + text[b:]
    same(d.text(), want, what)
    need(len(changes) <= 1, "{}: {} separate changes", what, len(changes))
    if want != text:
        same(len(changes), 1, what + ": number of reported changes")
        d.undo()
        same(d.text(), text, what + ": text after one undo")
    return want != text


ASPECTS = [
    Aspect("functions", gen, check, quick=30000, shards=8, thorough=800000,
           rule="the text was changed by the operation"),
]
