"""C19: JSON, CSV and INI texts are transformed to the data they denote."""
import json

from vp.core import Aspect, Skip, Violation, need, same
from vp import langs as B

CHARS = ["a", "b", "Z", "0", " ", "\"", "\\", "/", "\n", "\t", "\r", "\b", "\f", "é", "€", "𝄞", "\u2028", "\x7f", "{", "}", "[", "]", ",", ":",
         "\x01", "u", "\ud800", "n", "😀"]


# ------------------------------------------------------------------------ JSON

def gen_string(s, chars=CHARS, max=8):
    return s.text(chars, 0, max, 2.5)


NUMBERS = ["0", "-0", "1", "-1", "12345678901234567890", "9007199254740993", "-12345678901234567891234", "1.5", "-0.25", "1e3", "1E+3",
           "2e-2", "1.0", "-1.50E2", "0.1", "123456789.123456789", "1e400", "-1e400", "1e-400", "100000000000000000000000", "3.14159", "10"]


def gen_value(s, depth=3):
    k = s.int(0, 8)
    if k == 0 or depth == 0 and k > 6:
        return ["const", s.pick(["true", "false", "null"])]
    if k < 3:
        return ["num", s.pick(NUMBERS) if s.int(0, 2) else str(s.int(-1000, 1000))]
    if k < 5 or depth == 0:
        return ["str", gen_string(s)]
    if k < 7:
        return ["arr", s.list(lambda s: gen_value(s, depth - 1), 0, 5, 2)]
    return ["obj", s.list(lambda s: [gen_string(s, max=3), gen_value(s, depth - 1)], 0, 5, 2)]


SHORT = {"\"": "\\\"", "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f", "/": "\\/"}


def write_json(v, s):
    def ws():
        return s.pick(["", "", "", " ", "\n", "\t ", "\r\n", "  "])

    def string(t):
        out = ""
        for c in t:
            if c in SHORT and (c != "/" or s.int(0, 1)) and s.int(0, 4):
                out += SHORT[c]
            elif ord(c) < 0x20 or c in "\"\\" or "\ud800" <= c <= "\udfff" or s.one_in(8):
                for u in ([ord(c)] if ord(c) < 0x10000 else
                          [0xd800 + ((ord(c) - 0x10000) >> 10), 0xdc00 + ((ord(c) - 0x10000) & 0x3ff)]):
                    out += "\\u" + s.pick(["{:04x}", "{:04X}"]).format(u)
            else:
                out += c
        return '"' + out + '"'

    k = v[0]
    if k in ("const", "num"):
        return v[1]
    if k == "str":
        return string(v[1])
    if k == "arr":
        return "[" + ws() + (ws() + "," + ws()).join(write_json(x, s) for x in v[1]) + ws() + "]"
    return "{" + ws() + (ws() + "," + ws()).join(string(a) + ws() + ":" + ws() + write_json(b, s) for a, b in v[1]) + ws() + "}"


def gen_json(s):
    v = gen_value(s)
    return {"text": s.pick(["", " ", "\n"]) + write_json(v, s) + s.pick(["", " ", "\n"])}


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(eq, a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b


def check_json(case):
    from parce.lang.json import Json
    from parce.transform import transform_text
    text = case["text"]
    want = json.loads(text)
    got = transform_text(Json.root, text)
    need(eq(got, want), "{!r} is transformed to {!r}, expected {!r}", text, got, want)
    return isinstance(want, (dict, list)) and len(want) > 1


# ------------------------------------------------------------------------- CSV

FIELD = ["a", "b", "1", " ", "é", "\t", ";", "'", "#", "-", "𝄞", "."]


def gen_csv(s):
    records = []
    lines = []
    for _ in range(s.int(0, 6)):
        rec = []
        out = []
        for _ in range(s.int(1, 5)):
            k = s.int(0, 4)
            if k == 0:
                rec.append(None)
                out.append("")
            elif k < 3:
                f = s.text(FIELD, 1, 6, 3)
                rec.append(f)
                out.append(f)
            else:
                f = s.text(FIELD + [",", "\"", "\n", "\"\"", ",\n"], 0, 6, 3)
                rec.append(f)
                out.append(s.pick(["", "", " "]) + '"' + f.replace('"', '""') + '"' + s.pick(["", "", " "]))
        records.append(rec)
        lines.append(",".join(out))
    return {"records": records, "text": "\n".join(lines) + s.pick(["", "\n"])}


def check_csv(case):
    from parce.lang.csv import Csv
    from parce.transform import transform_text
    # a line without anything is not a record
    want = [tuple(r) for r in case["records"] if r != [None]]
    got = transform_text(Csv.root, case["text"])
    need(got == want and all(isinstance(r, tuple) for r in got), "{!r} is transformed to {!r}, expected {!r}", case["text"], got, want)
    return len(want) > 1 and any(f and ('"' in f or "," in f or "\n" in f) for r in want for f in r)


# ------------------------------------------------------------------------- INI

INITEXT = ["a", "b", "key", "1", " ", "é", "-", ".", "_", "'", "\"", "/", "]", "𝄞"]
INIESC = {"\\": "\\\\", ";": "\\;", "#": "\\#", "=": "\\=", ":": "\\:", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0", "\a": "\\a",
          "\b": "\\b", "'": "\\'", "\"": "\\\""}


def gen_ini(s):
    def item(s, first):
        """(meaning, text)"""
        out = []
        for _ in range(s.pick([1, 1, 2, 3, 5])):
            k = s.int(0, 6)
            if k < 5:
                c = s.pick(INITEXT)
                out.append((c, c))
            elif k == 5:
                c = s.pick(sorted(INIESC))
                out.append((c, INIESC[c]))
            else:
                c = s.pick(["é", "a", "\u20ac", " "])
                out.append((c, s.pick(["\\x{:04x}", "\\X{:04X}", "\\x{:04X}"]).format(ord(c))))
        if all(len(t) == 1 and t in " \t" for c, t in out):
            out.append(("x", "x"))
        # unescaped white space at the ends is not part of the text
        while len(out[0][1]) == 1 and out[0][1] in " \t":
            out.pop(0)
        while len(out[-1][1]) == 1 and out[-1][1] in " \t":
            out.pop()
        if first and out[0][1] == "]":
            out[0] = ("x", "x")
        return "".join(c for c, t in out), "".join(t for c, t in out)

    def ws():
        return s.pick(["", "", " ", "  ", "\t"])

    result = {}
    lines = []
    top = []
    cur = top
    sections = []
    for _ in range(s.int(0, 10)):
        k = s.int(0, 6)
        if k == 0:
            lines.append(ws() + s.pick([";", "#"]) + s.pick(["", " comment", " a = b", " [x]", "\\n \\"]))
        elif k == 1:
            lines.append(ws())
        elif k == 2:
            name = s.pick(["s", "section", "a b", "é", "x.y", "\\n", "\\", "a\\", "\\x41", "c:\\d", "k=v"]) + str(len(sections))
            lines.append("[" + ws() + name + ws() + "]" + s.pick(["", "", " ; c"]))
            cur = []
            sections.append([name, cur])
        else:
            key, kt = item(s, True)
            if s.one_in(6):
                value, vt = None, ""
            else:
                value, vt = item(s, False)
            lines.append(ws() + kt + ws() + "=" + (ws() if value is not None else "") + vt + (ws() if value is not None else "") +
                         s.pick(["", "", "", ";", "# c", "; x = y"]))
            cur.append([key, value])
    return {"text": "\n".join(lines) + s.pick(["", "\n"]), "top": top, "sections": sections}


def check_ini(case):
    from parce.lang.ini import Ini
    from parce.transform import transform_text
    want = {}
    if case["top"]:
        want[None] = dict(map(tuple, case["top"]))
    for name, entries in case["sections"]:
        want[name] = dict(map(tuple, entries))
    got = transform_text(Ini.root, case["text"])
    need(got == want, "{!r} is transformed to {!r}, expected {!r}", case["text"], got, want)
    return len(want) > 1 and "\\" in case["text"]


# -------------------------------------------------------------------- any text

SOUP = ["{", "}", "[", "]", "\"", ",", ":", "\\", "\\u12", "\\x", "\\x00", "=", ";", "#", "\n", " ", "a", "1", "null", "-", "1e", "\"\"", "\t", "\\n"]
LANGS = ["parce.lang.json.Json.root", "parce.lang.csv.Csv.root", "parce.lang.ini.Ini.root"]
NUM = ["parce.lang.numbers." + x + ".root" for x in ("English", "Nederlands", "Deutsch", "Français")]


def gen_any(s):
    q = s.pick(LANGS)
    piece = B.pieces(q)
    return {"lang": q, "text": "".join(s.list(lambda s: s.pick(SOUP) if s.int(0, 2) else piece(s), 0, 30, 10))}


def check_any(case):
    from parce.transform import transform_text
    r = transform_text(B.lexicon(case["lang"]), case["text"])
    if "Csv" in case["lang"]:
        need(isinstance(r, list) and all(isinstance(x, tuple) and all(f is None or isinstance(f, str) for f in x) for x in r),
             "{!r} is transformed to {!r}", case["text"], r)
    elif "Ini" in case["lang"]:
        need(isinstance(r, dict) and all(isinstance(k, (str, type(None))) and isinstance(d, dict) and all(
            isinstance(a, str) and isinstance(b, (str, type(None))) for a, b in d.items()) for k, d in r.items()),
            "{!r} is transformed to {!r}", case["text"], r)
    return bool(r)


ASPECTS = [
    Aspect("json", gen_json, check_json, quick=1500, thorough=20000, shards=2,
           rule="an object or array with at least two members"),
    Aspect("csv", gen_csv, check_csv, quick=1000, thorough=15000, shards=2,
           rule="at least two records, and a field that needs quoting"),
    Aspect("ini", gen_ini, check_ini, quick=1000, thorough=15000, shards=2,
           rule="at least two sections and an escape"),
    Aspect("anytext", gen_any, check_any, quick=1500, thorough=20000, shards=2,
           rule="the result is not empty"),
]
