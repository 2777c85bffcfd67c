"""C18: generated regular expressions match exactly what was asked for."""
import re
import unicodedata

from vp.core import Aspect, Skip, Violation, need, same

# ----------------------------------------------------------------------- words

ALPHA = ["ab", "abc", "cadr", "ab-", "a.b", "aé", "xyz01", "()a", "[]^a-", "{}1,", "\\n a", "a|b", "*+?a", "aA\n", "𝄞a", "#a&~"]


def gen_words(s):
    alpha = s.pick(ALPHA)
    words = []
    n = s.pick([1, 1, 2, 3, 4, 5, 6, 8, 12, 20])
    for _ in range(n):
        k = s.int(0, 7)
        if words and k == 5:                  # extend
            w = s.pick(words) + s.text(alpha, 1, 3)
        elif words and k == 6:                # prepend
            w = s.text(alpha, 1, 3) + s.pick(words)
        elif words and k == 7:                # insert, repeat
            w = s.pick(words)
            i = s.int(0, len(w))
            w = w[:i] + (w[i:i + 2] if s.int(0, 1) else s.pick(alpha)) + w[i:]
        else:
            w = s.text(alpha, 0 if s.one_in(12) else 1, 6, 3)
        words.append(w[:14])
    if s.one_in(3):
        suf = s.text(alpha, 1, 2)
        words = [w + suf for w in words]
    if s.one_in(3):
        pre = s.text(alpha, 1, 2)
        words = [pre + w for w in words]
    return {"words": words, "kind": s.pick(["list", "tuple", "set", "gen", "dict"]),
            "probes": s.list(lambda s: s.text(alpha, 0, 9, 4), 0, 8, 4)}


def as_kind(words, kind):
    if kind == "gen":
        return (w for w in words)
    if kind == "dict":
        return dict.fromkeys(words)
    return {"list": list, "tuple": tuple, "set": set}[kind](words)


def candidates(case):
    words = case["words"]
    out = set(case["probes"]) | set(words) | {""}
    for w in words[:12]:
        for i in range(len(w)):
            out.add(w[:i] + w[i + 1:])
            out.add(w[:i + 1] + w[i:])
            out.add(w[:i])
            out.add(w[i:])
            for p in words[:4]:
                if p:
                    out.add(w[:i] + p[0] + w[i + 1:])
        for v in words[:5]:
            out.add(w + v)
            for i in range(1, len(v)):
                out.add(w[:i] + v[i:])
    return out


def check_words(case):
    from parce.regex import words2regexp
    from parce.rule import words as rwords
    words = case["words"]
    ws = set(words)
    rx = words2regexp(as_kind(words, case["kind"]))
    c = re.compile(rx)
    cand = candidates(case)
    for t in cand:
        if bool(c.fullmatch(t)) != (t in ws):
            raise Violation("words2regexp({!r}) = {!r} {} {!r}".format(
                words, rx, "does not match" if t in ws else "matches", t))
    for t in cand:
        m = c.match(t)
        best = max((w for w in ws if t.startswith(w)), key=len, default=None)
        if (m.group() if m else None) != best:
            raise Violation("words2regexp({!r}) = {!r} at {!r} matches {!r}, expected {!r}".format(
                words, rx, t, m and m.group(), best))
    need(c.groups == 0, "words2regexp({!r}) = {!r} contains capturing groups", words, rx)
    # with prefix and suffix around it
    p = re.compile(rwords(as_kind(words, case["kind"]), "(?:<)", "(?:>|!)"))
    q = re.compile(rwords(as_kind(words, case["kind"]), "", "=") )
    r = re.compile(rwords(as_kind(words, case["kind"]), "%"))
    plain = re.compile(rwords(as_kind(words, case["kind"])))
    for t in cand:
        same(bool(p.fullmatch("<" + t + "!")), t in ws, "words({!r}, '<', '>|!') matches {!r}".format(words, "<" + t + "!"))
        same(bool(q.fullmatch(t + "=")), t in ws, "words({!r}, suffix '=') matches {!r}".format(words, t + "="))
        same(bool(r.fullmatch("%" + t)), t in ws, "words({!r}, '%') matches {!r}".format(words, "%" + t))
        same(bool(plain.fullmatch(t)), t in ws, "words({!r}) matches {!r}".format(words, t))
    return len(ws) > 2


# ------------------------------------------------------------------- the tools

def gen_tools(s):
    alpha = s.pick(ALPHA)
    return {"words": s.list(lambda s: s.text(alpha, 0, 6, 3), 0, 10, 4), "reverse": s.bool()}


def check_tools(case):
    from parce.regex import make_trie, common_suffix, trie_to_regexp_tuple, build_regexp
    words = case["words"]
    rev = case["reverse"]
    t = make_trie(words, rev)

    def walk(node, top=True):
        firsts = []
        if not top:
            need(len(node) > 0, "an empty node in the trie of {!r}", words)
        for k, v in node.items():
            if k is None:
                need(v is True, "end point value {!r} in the trie of {!r}", v, words)
                yield ""
                continue
            need(isinstance(k, str) and k != "", "key {!r} in the trie of {!r}", k, words)
            firsts.append(k[-1] if rev else k[0])
            need(len(v) > 1 or None in v, "the trie of {!r} has an only child below {!r}", words, k)
            for w in walk(v, False):
                yield w + k if rev else k + w
        need(len(set(firsts)) == len(firsts), "two keys of one node of the trie of {!r} start alike", words)

    same(sorted(walk(t)), sorted(set(words)), "words in the trie")
    w2, suf = common_suffix(words)
    same([w + suf for w in w2], words, "words and common suffix")
    if words and w2:
        need(any(not w for w in w2) or len({w[-1] for w in w2}) > 1,
             "the common suffix of {!r} is longer than {!r}", words, suf)
    if words and all(words):
        r = re.compile(build_regexp(trie_to_regexp_tuple(make_trie(words))))
        for c in candidates({"words": words, "probes": []}):
            same(bool(r.fullmatch(c)), c in words, "the expression built from the trie of {!r} matches {!r}".format(words, c))
    return len(set(words)) > 2


# ---------------------------------------------------------------- char classes

CC = ["\0", "\t", "\n", " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "9", ":", ";", "<", "=", ">", "?", "@",
      "A", "B", "C", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "z", "{", "|", "}", "~", "\x7f", "\x80", "é", "ÿ", "Ā", "\u2028", "\ud800",
      "\uffff", "𝄞", "\U0010ffff"]


def gen_cc(s):
    chars = set(s.list(lambda s: s.pick(CC), 0, 8, 4))
    if not chars or s.bool():
        for _ in range(s.int(1, 3)):
            a = ord(s.pick(CC))
            chars.update(chr(c) for c in range(a, min(a + s.pick([1, 2, 3, 6, 40]), 0x110000)))
    return {"chars": s.shuffle(sorted(chars)), "dup": s.bool(), "kind": s.pick(["str", "list", "set", "gen"])}


def check_cc(case):
    from parce.regex import make_charclass
    from parce.rule import chars as rchars
    chars = case["chars"]
    def arg():
        l = chars + chars if case["dup"] else chars
        return {"str": "".join, "list": list, "set": set, "gen": iter}[case["kind"]](l)
    cls = make_charclass(arg())
    probes = set(CC) | set(chars)
    for c in chars:
        probes.update(chr(x) for x in (ord(c) - 1, ord(c) + 1) if 0 <= x < 0x110000)
    pats = [(re.compile("[" + cls + "]"), True), (re.compile("[^" + cls + "]"), False),
            (re.compile(rchars(arg())), True), (re.compile(rchars(arg(), False)), False)]
    for c in probes:
        for p, pos in pats:
            if bool(p.fullmatch(c)) != ((c in chars) == pos):
                raise Violation("the class {!r} made of {!r} {} {!r}".format(
                    p.pattern, chars, "does not match" if (c in chars) == pos else "matches", c))
    need(pats[0][0].fullmatch(chars[0] * 2) is None, "the class matches two characters")
    return len(chars) > 2


# ------------------------------------------------------------------- to_string

LIT = ["a", "b", "Z", "0", " ", "é", "-", "#", "\n", ",", "=", "<", "!", "&", "'", "x", "N", "u", "𝄞", "\"", "~", "/", "7"]
ESCAPED = [(r"\n", "\n"), (r"\t", "\t"), (r"\r", "\r"), (r"\f", "\f"), (r"\v", "\v"), (r"\a", "\a"), (r"\x41", "A"), (r"\x5b", "["), (r"\xe9", "é"),
           (r"\u0061", "a"), (r"\u20ac", "€"), (r"\U0001d11e", "𝄞"), (r"\0", "\0"), (r"\07", "\7"), (r"\012", "\n"), (r"\101", "A"), (r"\141", "a"),
           (r"\N{LATIN SMALL LETTER A}", "a"), (r"\N{EURO SIGN}", "€"), (r"\x5C", "\\"),
           (r"\.", "."), (r"\\", "\\"), (r"\(", "("), (r"\)", ")"), (r"\[", "["), (r"\]", "]"), (r"\{", "{"), (r"\}", "}"), (r"\*", "*"), (r"\+", "+"),
           (r"\?", "?"), (r"\^", "^"), (r"\$", "$"), (r"\|", "|")]
OTHER = [r"\b", r"\d", r"\w", r"\s", r"\A", r"\Z", r"\B", r"\D", r"\-", r"\ ", r"\#", r"\"", r"\/", ".", "^", "$", "a*", "a+", "b?", "[ab]", "(a)", "(?:a)", "a|b",
         "a{2}", "{", "}", "]", "(?=a)", "(?i:a)", "(a)\\1", "\\\n", "x{1,2}", "\\S", "\\W", "\\,", "\\é", "\\_"]
TS = LIT + [m for _, m in ESCAPED if len(m) == 1] + ["\\", "a", "aa", "ab", "\\n"]


def gen_ts(s):
    parts = []
    text = ""
    exact = True
    for _ in range(s.int(1, 6)):
        k = s.int(0, 9)
        if k < 4:
            c = s.pick(LIT)
            parts.append([c, c])
        elif k < 8:
            parts.append(list(s.pick(ESCAPED)))
        else:
            parts.append([s.pick(OTHER), None])
    return {"parts": parts, "texts": s.list(lambda s: s.text(TS, 0, 8, 4), 0, 6, 3)}


def check_ts(case):
    from parce.regex import to_string
    expr = "".join(p for p, _ in case["parts"])
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            rx = re.compile(expr)
    except re.error:
        raise Skip()
    got = to_string(expr)
    lit = [m for _, m in case["parts"]]
    # octal escapes eat following digits
    plain = None not in lit and not re.search(r"\\[0-7]{1,2}[0-7]|\\0[0-7]", expr)
    if plain:
        same(got, "".join(lit), "to_string({!r})".format(expr))
    if got is None:
        return None not in lit
    need(isinstance(got, str), "to_string({!r}) gives {!r}", expr, got)
    texts = case["texts"] + [got, got * 2, "a" + got, got + "a", got[1:], got[:-1], got.upper(), got.swapcase(), expr, "", got + "\n" + got, got[::-1]]
    texts += [a + got + b for a, b in zip(case["texts"], reversed(case["texts"]))]
    for t in texts:
        a = [m.span() for m in rx.finditer(t)]
        b = []
        i = t.find(got) if got else -1
        while i >= 0:
            b.append((i, i + len(got)))
            i = t.find(got, i + len(got))
        if got and a != b:
            raise Violation("to_string({!r}) = {!r}, in {!r} the expression matches at {!r} but the string is at {!r}".format(expr, got, t, a, b))
    return any(len(p) > 1 for p, m in case["parts"] if m)


# ---------------------------------------------------------------- unicharclass

CATS = ["Cc", "Cf", "Cn", "Co", "Cs", "Ll", "Lm", "Lo", "Lt", "Lu", "Mc", "Me", "Mn", "Nd", "Nl", "No", "Pc", "Pd", "Pe", "Pf", "Pi", "Po", "Ps", "Sc", "Sk",
        "Sm", "So", "Zl", "Zp", "Zs"]


def gen_uni(s):
    block = s.int(0, 0x10ff) if s.int(0, 1) else s.int(0, 0x2ff)
    return {"from": block * 256, "count": 256}


_cats = None


def check_uni(case):
    global _cats
    if _cats is None:
        from parce.unicharclass import categories
        same(sorted(categories), CATS, "the categories")
        _cats = {k: re.compile("[" + v + "]") for k, v in categories.items()}
    assigned = 0
    for o in range(case["from"], case["from"] + case["count"]):
        c = chr(o)
        found = [k for k, r in _cats.items() if r.fullmatch(c)]
        need(len(found) == 1, "U+{:04X} is in the categories {!r}", o, found)
        # the age of the tables: characters may have been added later; the category
        # of the stable first blocks never changed
        real = unicodedata.category(c)
        if o < 0x250:
            same(found, [real], "the category of U+{:04X}".format(o))
        if found == ["Cn"]:
            continue
        assigned += 1
        need(real != "Cn", "U+{:04X} is not assigned but in category {}", o, found[0])
    return assigned > 0


ASPECTS = [
    Aspect("words", gen_words, check_words, quick=1500, thorough=25000, shards=4,
           rule="at least three different words"),
    Aspect("tools", gen_tools, check_tools, quick=800, thorough=10000, shards=2, rule="at least three different words"),
    Aspect("charclass", gen_cc, check_cc, quick=1000, thorough=10000, shards=2, rule="at least three characters"),
    Aspect("to_string", gen_ts, check_ts, quick=3000, thorough=40000, shards=2, rule="the expression has an escape and denotes a string"),
    Aspect("unicode", gen_uni, check_uni, quick=300, thorough=2500, shards=2, rule="the block of 256 code points has assigned characters"),
]
