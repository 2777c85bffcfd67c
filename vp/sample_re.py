"""Produce a few strings that match (or nearly match) a regular expression."""
import random
import re
import sys
import zlib

import re._parser as _parser
import re._constants as _c


def sample(pattern, n=3, flags=0, alphabet='abA0 +."\nxyz19_', maxrep=3):
    """Return up to n sample strings for the pattern, deterministically."""
    try:
        tree = _parser.parse(pattern, flags)
    except (re.error, RecursionError, OverflowError):
        return []
    rnd = random.Random(zlib.crc32(pattern.encode("utf-8", "surrogatepass")))
    out = []
    for _ in range(n * 3):
        s = _gen(tree, rnd, alphabet, maxrep, {})
        if s and s not in out:
            out.append(s)
            if len(out) == n:
                break
    return out


def _class(items, alphabet, rnd):
    neg = False
    ok = []
    cats = []
    for op, av in items:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            ok.append((av, av))
        elif op is _c.RANGE:
            ok.append(av)
        elif op is _c.CATEGORY:
            cats.append(av)

    def match(ch):
        o = ord(ch)
        r = any(a <= o <= b for a, b in ok)
        for c in cats:
            n = str(c)
            x = (ch.isdigit() if "DIGIT" in n else ch.isspace() if "SPACE" in n
                 else (ch.isalnum() or ch == "_"))
            r = r or (not x if "NOT" in n else x)
        return r != neg
    cand = [ch for ch in alphabet if match(ch)]
    if not neg:
        cand += [chr(rnd.randint(a, b)) for a, b in ok if b <= 0x10ffff]
    cand = [c for c in cand if match(c)] or cand
    return rnd.choice(cand) if cand else ""


def _gen(tree, rnd, alphabet, maxrep, groups):
    out = []
    for op, av in tree:
        if op is _c.LITERAL:
            out.append(chr(av))
        elif op is _c.NOT_LITERAL:
            out.append(rnd.choice([c for c in alphabet if ord(c) != av]))
        elif op is _c.ANY:
            out.append(rnd.choice([c for c in alphabet if c != "\n"]))
        elif op is _c.IN:
            out.append(_class(av, alphabet, rnd))
        elif op is _c.BRANCH:
            out.append(_gen(rnd.choice(av[1]), rnd, alphabet, maxrep, groups))
        elif op is _c.SUBPATTERN:
            s = _gen(av[3], rnd, alphabet, maxrep, groups)
            if av[0]:
                groups[av[0]] = s
            out.append(s)
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT, getattr(_c, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            hi = min(int(hi), lo + maxrep)
            for _ in range(rnd.randint(lo, hi)):
                out.append(_gen(sub, rnd, alphabet, maxrep, groups))
        elif op is _c.ASSERT and av[0] == 1:
            if rnd.random() < .5:   # add the text looked for, at the end only
                out.append(_gen(av[1], rnd, alphabet, maxrep, groups))
        elif op is _c.GROUPREF:
            out.append(groups.get(av, ""))
        elif op is getattr(_c, "ATOMIC_GROUP", None):
            out.append(_gen(av, rnd, alphabet, maxrep, groups))
    return "".join(out)
