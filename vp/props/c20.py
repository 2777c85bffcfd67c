"""C20: numbers written in words or in Scheme notation get their value."""
import cmath
import math
from fractions import Fraction

from vp.core import Aspect, Skip, Violation, need, same
from vp import langs as B

# ------------------------------------------------------------- numbers in words

EN20 = "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
EN10 = "- - twenty thirty forty fifty sixty seventy eighty ninety".split()
NL20 = "nul een twee drie vier vijf zes zeven acht negen tien elf twaalf dertien veertien vijftien zestien zeventien achttien negentien".split()
NL10 = "- - twintig dertig veertig vijftig zestig zeventig tachtig negentig".split()
DE20 = "null ein zwei drei vier fünf sechs sieben acht neun zehn elf zwölf dreizehn vierzehn fünfzehn sechzehn siebzehn achtzehn neunzehn".split()
DE10 = "- - zwanzig dreißig vierzig fünfzig sechzig siebzig achtzig neunzig".split()
FR20 = "zéro un deux trois quatre cinq six sept huit neuf dix onze douze treize quatorze quinze seize dix-sept dix-huit dix-neuf".split()
FR10 = "- - vingt trente quarante cinquante soixante - quatre-vingt -".split()
LANGS = ["English", "Nederlands", "Deutsch", "Français"]
BIG = {"English": ["hundred", "thousand", "million"], "Nederlands": ["honderd", "duizend", "miljoen"], "Deutsch": ["hundert", "tausend", "million"],
       "Français": ["cent", "mille", "million"]}


class Writer:
    def __init__(self, s, lang):
        self.s = s
        self.lang = lang

    def sep(self):
        if self.lang == "Français":
            return self.s.pick([" ", "-", " ", "  ", "\n", "\t", "\r\n"])
        return self.s.pick(["", " ", "-", "", " ", "  ", "\n", " - ", "\t", "\r\n", "\u00a0"])

    def below100(self, n, alone=False):
        s, lang = self.s, self.lang
        if lang == "English":
            if n < 20:
                return EN20[n]
            return EN10[n // 10] + (self.sep() + EN20[n % 10] if n % 10 else "")
        if lang in ("Nederlands", "Deutsch"):
            n20, n10, link = (NL20, NL10, s.pick(["en", "ën"])) if lang == "Nederlands" else (DE20, DE10, "und")
            if n < 20:
                return "eins" if lang == "Deutsch" and n == 1 and alone and s.bool() else n20[n]
            t = n10[n // 10]
            if t == "dreißig" and s.bool():
                t = "dreissig"
            if n % 10 == 0:
                return t
            gap = s.pick(["", "", " ", "\n"])
            return n20[n % 10] + gap + link + s.pick(["", gap]) + t
        if n == 0:
            return s.pick(["zéro", "zero"])
        if n < 20:
            return FR20[n]
        ten, unit = divmod(n, 10)
        if ten in (7, 9):
            ten, unit = ten - 1, unit + 10
        if ten == 8 and unit == 0:
            return s.pick(["quatre-vingts", "quatre-vingt"])
        if unit == 0:
            return FR10[ten]
        if unit in (1, 11) and ten != 8 and s.int(0, 2):
            return FR10[ten] + s.pick([" ", "-"]) + "et" + s.pick([" ", "-"]) + FR20[unit]
        return FR10[ten] + s.pick(["-", " ", "-"]) + FR20[unit]

    def big(self, i, count):
        w = BIG[self.lang][i]
        if self.lang == "Français" and i != 1 and count > 1 and self.s.bool():
            w += "s"
        return w

    def number(self, n):
        s = self.s
        if n == 0:
            return self.below100(0)
        parts = []
        m, rest = divmod(n, 1000000)
        if m:
            if m > 1 or s.bool():
                parts += self.below1000(m)
            parts.append(self.big(2, m))
        t, rest = divmod(rest, 1000)
        if m == 0 and 1 <= t <= 9 and rest >= 100 and s.one_in(4):
            # like "twelve hundred"
            h = t * 10 + rest // 100
            parts += [self.below100(h), self.big(0, h)]
            rest %= 100
        else:
            if t:
                if t > 1 or s.bool():
                    parts += self.below1000(t)
                parts.append(self.big(1, t))
            h, rest = divmod(rest, 100)
            if h:
                if h > 1 or s.bool():
                    parts.append(self.below100(h))
                parts.append(self.big(0, h))
        if rest:
            parts.append(self.below100(rest, True))
        return self.join(parts)

    def below1000(self, n):
        h, r = divmod(n, 100)
        parts = []
        if h:
            if h > 1 or self.s.bool():
                parts.append(self.below100(h))
            parts.append(self.big(0, h))
        if r:
            parts.append(self.below100(r))
        return parts

    def join(self, parts):
        out = parts[0]
        for p in parts[1:]:
            out += self.sep() + p
        return out


def gen_n(s):
    k = s.int(0, 5)
    if k == 0:
        return s.int(0, 99)
    if k == 1:
        return s.int(0, 1999)
    if k == 2:
        return s.pick([1, 7, 60, 80, 90]) * s.pick([1, 100, 1000, 10**6, 10**4, 10**5]) + s.pick([0, 0, 80, 1, 71, 91, 100, 1000])
    if k == 3:
        return s.int(0, 999999)
    return s.int(0, 999) * 10**6 + s.pick([0, s.int(0, 999999), s.int(0, 99), 1000 * s.int(0, 999)])


def separable(n):
    """The number ends in a word after which another number below 100 starts a new number."""
    r = n % 100
    return n == 0 or r != 0 and (r < 20 or r % 10 != 0)


def gen_words(s):
    lang = s.pick(LANGS)
    w = Writer(s, lang)
    n = gen_n(s)
    numbers = [n]
    text = w.number(n)
    while separable(numbers[-1]) and s.bool():
        k = s.int(0, 99) if s.int(0, 3) else 0
        gap = s.pick([" ", "\n", "  ", "\t"])
        if lang != "Français" and 0 in (k, numbers[-1]) and s.bool():
            gap = ""        # a zero is a number of its own, also without space
        numbers.append(k)
        text += gap + w.below100(k, True)
        if len(numbers) > 4:
            break
    mode = s.pick(["same", "upper", "title", "random"])
    if mode == "upper":
        text = text.upper()
    elif mode == "title":
        text = text.title()
    elif mode == "random":
        text = "".join(c.upper() if s.bool() else c for c in text)
    return {"lang": lang, "numbers": numbers, "text": s.pick(["", " "]) + text + s.pick(["", " ", "\n"])}


def check_words(case):
    from parce.transform import transform_text
    import parce.lang.numbers as N
    lang = getattr(N, case["lang"])
    got = transform_text(lang.root, case["text"])
    same(got, case["numbers"], "{} {!r}".format(case["lang"], case["text"]))
    return max(case["numbers"]) > 20


def gen_any(s):
    lang = s.pick(LANGS)
    q = "parce.lang.numbers." + lang + ".root"
    ws = {"English": EN20 + EN10, "Nederlands": NL20 + NL10, "Deutsch": DE20 + DE10 + ["und"], "Français": FR20 + FR10 + ["et", "s"]}[lang] + BIG[lang]
    return {"lang": lang, "text": "".join(s.list(lambda s: s.pick(ws) if s.int(0, 3) else s.pick(["-", " ", "x", "s", "en", "\n", ".", "é"]), 0, 14, 6))}


def check_any(case):
    from parce.transform import transform_text
    import parce.lang.numbers as N
    got = transform_text(getattr(N, case["lang"]).root, case["text"])
    need(isinstance(got, list) and all(isinstance(n, int) and n >= 0 for n in got), "{!r} gives {!r}", case["text"], got)
    return len(got) > 1


# ---------------------------------------------------------------------- Scheme

DIGITS = "0123456789abcdef"


def gen_uint(s, radix, nonzero=False):
    d = s.text(DIGITS[:radix], 1, 5, 2)
    if nonzero and not d.strip("0"):
        d = "1" + d
    return {"t": "uint", "d": d, "hash": s.int(1, 3) if s.one_in(8) else 0}


def gen_ureal(s, radix):
    k = s.int(0, 5)
    if k < 2:
        return gen_uint(s, radix)
    if k == 2 or radix != 10:
        return {"t": "frac", "n": gen_uint(s, radix), "d": gen_uint(s, radix, True)}
    dot = s.int(0, 2)
    a = s.text(DIGITS[:10], 1, 4, 2) if dot != 2 or True else ""
    h = 0
    b = ""
    if dot == 1:
        b = s.text(DIGITS[:10], 0, 4, 2)
    elif dot == 2:
        a, b = s.pick(["", a]), s.text(DIGITS[:10], 1, 4, 2)
    if s.one_in(8):
        h = s.int(1, 2)
    exp = None
    if dot == 0 or s.bool():
        exp = [s.pick("esfdlESFDL"), s.pick(["", "+", "-"]), str(s.int(0, 12))]
    return {"t": "dec", "a": a, "b": b, "dot": dot > 0, "hash": h, "exp": exp}


def gen_real(s, radix, sign=None):
    sign = s.pick(["", "", "+", "-"]) if sign is None else sign
    if sign and s.one_in(8):
        return {"sign": sign, "u": {"t": s.pick(["inf", "nan"])}}
    return {"sign": sign, "u": gen_ureal(s, radix)}


def gen_scheme(s):
    radix = s.pick([10, 10, 10, 2, 8, 16])
    exact = s.pick([None, None, "e", "i"])
    form = s.pick(["real", "real", "complex", "imag", "unit", "polar"])
    pre = []
    if radix != 10 or s.one_in(4):
        pre.append("#" + s.pick({2: "bB", 8: "oO", 10: "dD", 16: "xX"}[radix]))
    if exact:
        pre.append("#" + s.pick([exact, exact.upper()]))
    pre = s.shuffle(pre)
    case = {"radix": radix, "exact": exact, "form": form, "prefix": "".join(pre), "upper": s.bool(), "after": s.pick(["", " ", ")", "\n", ";c", "(x)", "\t#(1)"])}
    if form in ("real", "complex", "unit", "polar"):
        case["real"] = gen_real(s, radix)
    if form == "unit":
        case["sign"] = s.pick("+-")
        if s.bool():
            case["real"] = None
    elif form in ("complex", "imag"):
        case["imag"] = gen_real(s, radix, s.pick("+-"))
    elif form == "polar":
        case["imag"] = gen_real(s, radix)
    return case


def write_u(u, upper):
    t = u["t"]
    if t == "uint":
        return (u["d"].upper() if upper else u["d"]) + "#" * u["hash"]
    if t == "frac":
        return write_u(u["n"], upper) + "/" + write_u(u["d"], upper)
    if t in ("inf", "nan"):
        return t + ".0"
    h = "#" * u["hash"]
    if u["dot"]:
        text = u["a"] + "." + u["b"] + h if u["b"] or not h else u["a"] + h + "."
    else:
        text = u["a"] + h
    return text + ("".join(u["exp"]) if u["exp"] else "")


def write_real(r, upper):
    return r["sign"] + write_u(r["u"], upper)


def value_u(u, radix):
    """(value, inexact by notation, has unknown digits)"""
    t = u["t"]
    if t == "uint":
        return Fraction(int(u["d"], radix) * radix ** u["hash"]), False, bool(u["hash"])
    if t == "frac":
        n, _, a = value_u(u["n"], radix)
        d, _, b = value_u(u["d"], radix)
        return n / d, False, a or b
    if t == "inf":
        return math.inf, True, False
    if t == "nan":
        return math.nan, True, False
    h = "0" * u["hash"]
    if u["dot"] and (u["b"] or not h):
        a, b = u["a"], u["b"] + h
    else:
        a, b = u["a"] + h, ""
    v = Fraction(int((a + b) or "0"), 10 ** len(b))
    if u["exp"]:
        v *= Fraction(10) ** int(u["exp"][1] + u["exp"][2])
    return v, True, bool(h)


def value_real(r, radix):
    v, inexact, unknown = value_u(r["u"], radix)
    return (-v if r["sign"] == "-" else v), inexact, unknown


def eqf(a, b):
    return a != a and b != b or a == b


def check_scheme(case):
    from parce.lang.scheme import scheme_number_from_text
    up, radix = case["upper"], case["radix"]
    real = case.get("real")
    form = case["form"]
    text = case["prefix"]
    if real:
        text += write_real(real, up)
    if form in ("complex", "imag"):
        text += write_real(case["imag"], up) + ("I" if up else "i")
    elif form == "unit":
        text += case["sign"] + ("I" if up else "i")
    elif form == "polar":
        text += "@" + write_real(case["imag"], up)
    if form == "polar" and any(not math.isfinite(value_real(r, radix)[0]) for r in (real, case["imag"])):
        raise Skip()
    after = case["after"]
    if text.endswith("#") and after.startswith("("):
        after = ""          # would be read as the start of a vector
    got = scheme_number_from_text(text + after)
    if form == "real":
        v, inexact, unknown = value_real(real, radix)
        if case["exact"] == "e" and isinstance(v, Fraction):
            exact = True
        elif case["exact"] == "i" or inexact:
            exact = False
        else:
            exact = None if unknown else True
        if exact:
            need(isinstance(got, (int, Fraction)) and got == v, "{!r} gives {!r}, expected {!r}", text, got, v)
        else:
            f = float(v)
            need((isinstance(got, float) or exact is None and isinstance(got, (int, Fraction))) and eqf(float(got), f), "{!r} gives {!r}, expected {!r}", text, got, f)
    elif form == "polar":
        a, b = float(value_real(real, radix)[0]), float(value_real(case["imag"], radix)[0])
        want = cmath.rect(a, b)
        need(abs(got - want) <= 1e-9 * max(1, abs(want)), "{!r} gives {!r}, expected {!r}", text, got, want)
    else:
        re = float(value_real(real, radix)[0]) if real else 0.0
        im = (1.0 if case["sign"] == "+" else -1.0) if form == "unit" else float(value_real(case["imag"], radix)[0])
        need(isinstance(got, complex) and eqf(got.real, re) and eqf(got.imag, im), "{!r} gives {!r}, expected {!r}", text, got, complex(re, im))
    return len(text) > 4


def gen_soup(s):
    return {"text": "".join(s.list(lambda s: s.pick(["1", "2", "0", "a", "f", ".", "/", "#", "#x", "#e", "#i", "#b", "e", "-", "+", "i", "@", "+inf.0", "-nan.0", "1e", "1.5", " ", "9", "##"]), 1, 10, 5))}


def check_soup(case):
    """Faulty input gives a ValueError or ZeroDivisionError, nothing else."""
    from parce.lang.scheme import scheme_number_from_text
    try:
        v = scheme_number_from_text(case["text"])
    except (ValueError, ZeroDivisionError, OverflowError):
        return True
    need(isinstance(v, (int, float, complex, Fraction)), "{!r} gives {!r}", case["text"], v)
    return True


ASPECTS = [
    Aspect("words", gen_words, check_words, quick=1500, thorough=20000, shards=4, rule="a number above twenty"),
    Aspect("anywords", gen_any, check_any, quick=600, thorough=6000, shards=2, rule="more than one number is found"),
    Aspect("scheme", gen_scheme, check_scheme, quick=2000, thorough=30000, shards=2, rule="the notation is longer than four characters"),
    Aspect("soup", gen_soup, check_soup, quick=1500, thorough=15000, shards=2, rule="every text"),
]
