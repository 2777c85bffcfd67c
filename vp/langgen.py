"""Generated languages: strategy -> JSON spec -> (parce Language, reference lexer).

The reference lexer in this module is written from the documentation only
(docs: deflanguage, lexicon, lexer, target, rule). It shares no code with
parce: it keeps a stack of frames, tries every rule at every position in order,
and materialises a context when a token is emitted in a frame.
"""
import functools
import re

from .core import Skip
from .sample_re import sample

ALPHABET = 'aAb0 +."\n'
TEXTCHARS = 'aaaAbbb00 +."\n'


def fragments(spec):
    """Text fragments likely to be matched by the rules of the language."""
    out = []
    for ls in spec:
        for r in ls["rules"]:
            p = r[0]
            for pat in p[1:]:
                if p[0] in ("re", "ifarg", "arg", "zero") and isinstance(pat, str) and pat:
                    for s in sample(pat, 2, ls["flags"], ALPHABET):
                        if s not in out and all(c in ALPHABET for c in s):
                            out.append(s)
    return out


def piece_gen(spec):
    frags = fragments(spec) + ["a", "b"]
    def piece(s):
        return s.pick(frags) if s.int(0, 3) else s.pick(TEXTCHARS)
    return piece


def spec_text(s, spec, max_size=25, avg=9):
    return "".join(s.list(piece_gen(spec), 0, max_size, avg))


def texts(s, max_size=30):
    return "".join(s.list(lambda s: s.pick(TEXTCHARS), 0, max_size))


# ---------------------------------------------------------------- regexes

ESC = {'a': ['a', r'\x61', r'\u0061', r'\141'], '+': [r'\+', r'\x2b'], '.': [r'\.', '[.]'],
       '\n': [r'\n', r'\x0a', r'\012', '\n'], ' ': [r'\ ', '[ ]', r'\x20'], '"': ['"']}


def literal(s, max_size=3):
    chars = s.list(lambda s: s.pick(ALPHABET), 1, max_size)
    return "".join(s.pick(ESC.get(c, [c])) if s.one_in(4) else ESC.get(c, [c])[0] for c in chars)


ATOMS = [ESC.get(c, [c])[0] for c in ALPHABET]
CLASSES = ["[ab]", "[A-Z]", "[^a]", r"\w", r"\d", ".", r"\s", "[0+]", "[^\n]"]


def atom(s):
    return s.pick(ATOMS) if s.int(0, 1) else s.pick(CLASSES)


def regex(s, local=False, groups=True):
    """Return (pattern, number of groups). The pattern never matches ''.

    If local, a match (or the failure to match) depends on at most two
    characters after the matched text (or the third character).
    """
    if s.int(0, 5) <= 1:
        return literal(s), 0
    n = s.int(1, 3)
    parts = []
    ngroups = 0
    for i in range(n):
        a = atom(s)
        q = s.int(0, 5)
        if q == 1:
            if not local or i == n - 1:
                a += "+"
        elif q == 2 and i:
            a += "?"
        elif q == 3 and i:
            if not local or i == n - 1:
                a += "*"
        elif q == 4:
            a = "(?:{}|{})".format(a, atom(s))
        if groups and s.int(0, 2) == 2:
            a = "({}{})".format("?P<n{}>".format(s.int(0, 999)) if s.one_in(6) else "", a)
            ngroups += 1
            if i and s.one_in(3):
                a += "?"
        parts.append(a)
    pat = "".join(parts)
    tail = s.int(0, 9)
    endq = parts[-1].rstrip(")?")[-1:] in "+*"
    if not (local and endq):
        if tail == 9:
            pat += "(?={})".format(atom(s))
        elif tail == 8:
            pat += "(?!{})".format(atom(s))
        elif tail == 7:
            pat += r"\b"
    head = s.int(0, 9)
    if head == 9:
        pat = r"\b" + pat
    elif head == 8:
        pat = "(?<={})".format(s.pick(["a", "b", "0", r"\+"])) + pat
    elif head == 7:
        pat = "^" + pat
    return pat, ngroups


ACTIONS = ["A", "B", "C", "D"]
CONSTS = ["a", "b", "0", "+", "ab", "aa", "A", "."]


def value(s, ngroups, text=True):
    opts = [["arg"]]
    if text:
        opts = [["text"], ["text"], ["arg"], ["t", 0, 1], ["t", 1, None], ["t", -1, None]]
        opts += [["m", i] for i in range(1, ngroups + 1)]
    return s.pick(opts)


def condition(s, ngroups, branch, text=True, match=True):
    """A conditional item; ``branch`` generates a list of items."""
    kinds = ["ifeq", "ifneq", "ifmember", "dselect", "findmember", "select", "selpred"]
    if match and ngroups:
        kinds += ["ifgroup", "gselect"]
    k = s.pick(kinds)
    v = value(s, ngroups if match else 0, text)
    c = lambda s: s.pick(CONSTS)
    if k in ("ifeq", "ifneq"):
        return [k, v, c(s), branch(s), branch(s)]
    if k == "ifmember":
        return [k, v, s.list(c, 1, 3) if s.int(0, 3) else s.pick(["ab", "a0+", "aab."]), branch(s), branch(s)]
    if k == "dselect":
        return [k, v, [[x, branch(s)] for x in s.sample(CONSTS, s.int(1, 3))], branch(s)]
    if k == "findmember":
        return [k, v, s.list(lambda s: [s.list(c, 1, 3), branch(s)], 1, 3), branch(s)]
    if k in ("select", "selpred"):
        return [k, v, s.list(branch, 1, 3)]
    if k == "ifgroup":
        return [k, s.int(1, ngroups), branch(s), branch(s)]
    res = [branch(s) if s.int(0, 3) else None for _ in range(ngroups)]
    if not any(r is not None for r in res):
        res[0] = branch(s)
    return ["gselect", res, branch(s)]


def lexref(s, nlex):
    i = s.int(0, nlex - 1)
    if s.one_in(4):
        return ["lex", i, s.pick(["a", "b", "+", "ab", 3, "a", "b", "+", "ab", "", 0])]
    return ["lex", i, None]


def simple_targets(s, nlex, ngroups, text=True):
    res = flat_targets(s, nlex, ngroups, text)
    if res and s.one_in(8):
        # lists and tuples are unrolled
        i = s.int(0, len(res) - 1)
        k = s.pick(["tup", "lst"])
        res = res[:i] + [[k, res[i:] if s.int(0, 2) else [["lst", res[i:]]]]]
    return res


def flat_targets(s, nlex, ngroups, text=True):
    k = s.int(0, 9)
    if k <= 2:
        return []
    if k <= 4:
        return [["n", s.pick([-1, -1, -1, -2, 1, 2, -3, 0])]]
    if k <= 6:
        return [lexref(s, nlex)]
    if k == 7:
        return [["n", -1], lexref(s, nlex)]
    if k == 8:
        return [lexref(s, nlex), lexref(s, nlex) if s.int(0, 1) else
                s.pick([["n", -1], ["n", 1], ["n", -2]])]
    if text:
        res = [["derive", s.int(0, nlex - 1), value(s, ngroups)]]
        if s.one_in(4):
            res.append(lexref(s, nlex) if s.int(0, 1) else ["derive", s.int(0, nlex - 1), value(s, ngroups)])
        return res
    return [lexref(s, nlex)]


def lookahead_rule(s, nlex):
    """A rule that pushes lexicons derived with the text after the match."""
    pat = "{}(?=({}){})".format(atom(s), s.pick(["[ab]", "[ab0]", "[^a]", ".", "a|b|0"]), s.pick(["", "", "?"]))
    items = [plain_action(s, nlex, False)]
    if s.one_in(4):
        items.append(["n", -1])
    derive = lambda s: ["derive", s.int(0, nlex - 1), ["m", 1]]
    items.append(derive(s))
    k = s.int(0, 3)
    if k == 1:
        items.append(lexref(s, nlex))
    elif k == 2:
        items.append(derive(s))
    elif k == 3:
        items.insert(-1, lexref(s, nlex))
    return [["re", pat, 1]] + items


def optional_rule(s, nlex):
    """A rule of which any group may be missing in the match."""
    n = s.int(1, 3)
    pat = s.pick(["a", "b", "[ab]", "0"]) + "".join("({}){}".format(atom(s), s.pick(["?", "?", ""]) if i < 2 else "?") for i in range(n))
    k = s.int(0, 2)
    if k == 0:
        item = ["ifgroup", s.int(1, n), simple_targets(s, nlex, n), simple_targets(s, nlex, n) if s.bool() else []]
    else:
        res = [simple_targets(s, nlex, n) if s.int(0, 3) else None for _ in range(n)]
        if not any(r is not None for r in res):
            res[0] = simple_targets(s, nlex, n)
        item = ["gselect", res, simple_targets(s, nlex, n) if s.bool() else []]
    return [["re", pat, n], action(s, nlex, n), item]


def plain_action(s, nlex, use=True, ngroups=0):
    k = s.int(0, 13)
    if k == 13:
        return ["skip"]
    if k == 12 and use:
        if s.one_in(3):
            return ["use", ["derive", s.int(0, nlex - 1), value(s, ngroups)]]
        return ["use", lexref(s, nlex)]
    return ["a", s.pick(ACTIONS)]


def action(s, nlex, ngroups, text=True):
    k = s.int(0, 7)
    one = lambda s: [plain_action(s, nlex, ngroups=ngroups)]
    if ngroups and k >= 4:
        return ["by", [plain_action(s, nlex, ngroups=ngroups) if s.int(0, 2) else condition(s, ngroups, one)
                       for _ in range(ngroups)]]
    if k == 3:
        return condition(s, ngroups, one, text)
    return plain_action(s, nlex, ngroups=ngroups)


def rest(s, nlex, ngroups):
    """The items after the pattern."""
    k = s.int(0, 9)
    if k == 9:
        return [condition(s, ngroups, lambda s: [action(s, nlex, ngroups)] + simple_targets(s, nlex, ngroups))]
    items = [action(s, nlex, ngroups)]
    if k == 8:
        items.append(condition(s, ngroups, lambda s: simple_targets(s, nlex, ngroups)))
    elif k == 7:
        if s.one_in(3):
            items.append(["tsel", s.int(0, 1), value(s, ngroups), s.int(0, nlex - 1), value(s, ngroups), s.pick(CONSTS), s.int(0, nlex - 1), s.int(0, nlex - 1)])
        else:
            items.append(["target", value(s, ngroups), s.int(0, nlex - 1), s.int(0, nlex - 1)])
    else:
        items += simple_targets(s, nlex, ngroups)
    return items


def lexicon_spec(s, nlex, index, local=False, zero=True, ahead=False):
    rules = []
    n = s.int(1, 4) if s.int(0, 4) else 1
    for _ in range(n):
        k = s.int(0, 17)
        if k == 17:
            rules.append(optional_rule(s, nlex))
        elif k == 16 or (ahead and k in (3, 4, 5, 6)):
            rules.append(lookahead_rule(s, nlex))
        elif k == 15:
            pat = ["arg", s.pick(["", "a"]), s.pick(["", "b"]), s.pick([None, "a", "b+"])]
            rules.append([pat] + rest(s, nlex, 0))
        elif k == 14:
            p, g = regex(s, local, groups=False)
            q = s.pick([None, "b", "0"])
            rules.append([["ifarg", p, q]] + rest(s, nlex, 0))
        elif k == 13 and index + 1 < nlex:
            inc = ["include", s.int(index + 1, nlex - 1)]
            if s.one_in(3):
                inc.append(s.pick(["a", "b", "+", "ab", 3, "a", "b", "+", "ab", "", 0]))
            rules.append([inc])
        elif k == 12 and index + 1 < nlex:
            rules.append([["anyof", s.int(index + 1, nlex - 1)]] + simple_targets(s, nlex, 0, False))
        elif k == 11 and zero:
            p = s.pick(["(?=a)", "(?=b|0)", "(?!a)", "(?=\\n)", "$", ""])
            t = s.pick([[["n", -1]], [["n", -1]], [["n", -2]], None])
            if t is None:
                t = [lexref(s, nlex)]
            rules.append([["zero", p], ["a", "Z"]] + t)
        else:
            p, g = regex(s, local)
            rules.append([["re", p, g]] + rest(s, nlex, g))
    k = s.int(0, 6)
    one = lambda s: [plain_action(s, nlex)]
    if k == 2:
        rules.append([["default_action"], plain_action(s, nlex)])
    elif k == 3:
        rules.append([["default_action"], condition(s, 0, one, match=False)])
    elif k == 4 or (k == 5 and index):
        t = s.pick([[["n", -1]], [["n", -1]], [["n", -2]], None, 2])
        if t is None:
            t = [lexref(s, nlex)]
        elif t == 2:
            t = [["n", -1], lexref(s, nlex)]
        rules.append([["default_target"]] + t)
    flags = s.pick([0, 0, 0, 0, re.I.value, re.M.value, re.S.value, re.X.value])
    return {"flags": flags, "consume": s.one_in(5), "rules": rules}


def language_spec(s, local=False, zero=True, max_lex=4, ahead=False):
    nlex = s.int(1, max_lex)
    return [lexicon_spec(s, nlex, i, local, zero, ahead) for i in range(nlex)]


# ------------------------------------------------------------ parce language

_counter = [0]


def build_language(spec, hook=None, split=1):
    """Make a parce Language class from the spec (public API only).

    If hook is given, it is called (without arguments) every time a rule
    matches during lexing. If split > 1, the lexicons are distributed over that
    number of Language classes; the first one is returned.
    """
    import parce
    from parce import rule as R
    from parce import Language, default_action, default_target, lexicon, skip

    def run_hook(text):
        hook()
        return 0

    classes = []

    def look(i):
        return getattr(classes[i % split], "l{}".format(i))

    def val(v):
        if v[0] == "text":
            return R.TEXT
        if v[0] == "t":
            return R.TEXT[slice(v[1], v[2])]
        if v[0] == "m":
            return R.MATCH[v[1]]
        return R.ARG

    def lref(cls, r):
        lx = look(r[1])
        return lx if r[2] is None else lx(r[2])

    def seq(cls, items):
        res = [item(cls, i) for i in items]
        return res[0] if len(res) == 1 else tuple(res)

    def item(cls, it):
        k = it[0]
        if k == "a":
            return it[1]
        if k in ("tup", "lst"):
            return (tuple if k == "tup" else list)(item(cls, i) for i in it[1])
        if k == "skip":
            return skip
        if k == "n":
            return it[1]
        if k == "lex":
            return lref(cls, it)
        if k == "use":
            return R.using(item(cls, it[1]))
        if k == "by":
            return R.bygroup(*(item(cls, a) for a in it[1]))
        if k == "derive":
            return R.derive(look(it[1]), val(it[2]))
        if k == "target":
            a, b = (look(i) for i in it[2:4])
            return R.target(R.call(choose_target, val(it[1])), a, b)
        if k == "tsel":
            return R.target((it[1], val(it[2])), look(it[3]), R.ifeq(val(it[4]), it[5], look(it[6]), look(it[7])))
        if k == "ifeq":
            return R.ifeq(val(it[1]), it[2], seq(cls, it[3]), seq(cls, it[4]))
        if k == "ifneq":
            return R.ifneq(val(it[1]), it[2], seq(cls, it[3]), seq(cls, it[4]))
        if k == "ifmember":
            return R.ifmember(val(it[1]), it[2], seq(cls, it[3]), seq(cls, it[4]))
        if k == "dselect":
            return R.dselect(val(it[1]), {x: seq(cls, b) for x, b in it[2]}, seq(cls, it[3]))
        if k == "findmember":
            return R.findmember(val(it[1]), [(s, seq(cls, b)) for s, b in it[2]], seq(cls, it[3]))
        if k == "select":
            n = len(it[2])
            return R.select(R.call(lambda t: len(str(t or "")) % n, val(it[1])), *(seq(cls, b) for b in it[2]))
        if k == "selpred":
            n = len(it[2])
            return R.select(R.call(R.call(lambda a: lambda t: (len(str(a or "")) + len(str(t or ""))) % n, R.ARG), val(it[1])),
                            *(seq(cls, b) for b in it[2]))
        if k == "ifgroup":
            return R.ifgroup(it[1], seq(cls, it[2]), seq(cls, it[3]))
        if k == "gselect":
            return R.gselect(*(None if b is None else seq(cls, b) for b in it[1]), default=seq(cls, it[2]))
        raise ValueError(k)

    def make(index, ls):
        def rules(cls):
            for r in ls["rules"]:
                p = r[0]
                k = p[0]
                if k == "include":
                    yield from look(p[1])(p[2]) if len(p) > 2 else look(p[1])
                    continue
                if k == "anyof":
                    yield from R.anyof(look(p[1]), *(item(cls, i) for i in r[1:]))
                    continue
                if k in ("re", "zero"):
                    pat = p[1]
                elif k == "arg":
                    pat = R.arg(prefix=p[1], suffix=p[2], default=p[3])
                elif k == "ifarg":
                    pat = R.ifarg(p[1], p[2])
                elif k == "default_action":
                    pat = default_action
                else:
                    pat = default_target
                rest_ = [item(cls, i) for i in r[1:]]
                if hook and k != "default_target":
                    # the hook runs when the rule has matched; it selects the first item
                    rest_[0] = R.select(R.call(run_hook, R.TEXT), rest_[0])
                yield (pat, *rest_)
        rules.__name__ = "l{}".format(index)
        if not (ls["flags"] or ls["consume"]):
            return lexicon(rules)
        return lexicon(re_flags=ls["flags"], consume=ls["consume"])(rules)

    for k in range(split):
        _counter[0] += 1
        ns = {"l{}".format(i): make(i, ls) for i, ls in enumerate(spec) if i % split == k}
        ns["__module__"] = "vpgen"
        classes.append(type(Language)("Gen{}".format(_counter[0]), (Language,), ns))
    return classes[0]


def choose_target(t):
    """The predicate of generated ``target`` items."""
    t = str(t or "")
    n = len(t) % 4
    return (-1, 1, (0, None), (1, t))[n]


def may_run_away(spec):
    """True if a lexicon's text can be delegated to that lexicon again.

    Whether that comes to an end depends on the text; and while a tree is
    updated, other parts of the text are looked at than when it is built.
    """
    edges = {}
    uses = []

    def walk(i, item):
        if isinstance(item, list):
            if item[:1] == ["use"]:
                uses.append((i, item[1][1]))
            if len(item) > 1 and item[0] in ("lex", "include", "anyof", "derive") and isinstance(item[1], int):
                edges.setdefault(i, set()).add(item[1])
            if item[:1] in (["target"], ["tsel"]):
                edges.setdefault(i, set()).update(range(len(spec)))
            for x in item:
                walk(i, x)
    for i, l in enumerate(spec):
        walk(i, l["rules"])

    def reach(i):
        seen, todo = {i}, [i]
        while todo:
            for j in edges.get(todo.pop(), ()):
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        return seen
    return any(a in reach(b) for a, b in uses)


def guard(check):
    """Decorate a check that updates trees of the language ``case["spec"]``."""
    @functools.wraps(check)
    def wrapper(case, *args, **kwargs):
        try:
            return check(case, *args, **kwargs)
        except RecursionError:
            if may_run_away(case["spec"]):
                raise Skip("runaway delegation")
            raise
    return wrapper


# ------------------------------------------------------------ reference lexer

def bound(v, arg):
    return ["const", arg] if v == ["arg"] else v


class Frame:
    __slots__ = ("lex", "node")

    def __init__(self, lex):
        self.lex = lex      # (index, arg)
        self.node = None


class RefLexer:
    """Reference interpretation of a language spec."""

    def __init__(self, spec, max_steps=3000, max_depth=60, anchored=False):
        self.anchored = anchored
        self.spec = spec
        self.cache = {}
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.depth = 0

    # -- rules
    def raw_rules(self, index):
        for r in self.spec[index]["rules"]:
            p = r[0]
            if p[0] == "include":
                for q in self.raw_rules(p[1]):
                    yield self.bind(q, p[2]) if len(p) > 2 else q
            elif p[0] == "anyof":
                target = r[1:] or [["lex", p[1], None]]
                for q in self.raw_rules(p[1]):
                    if q[0][0] in ("default_action", "default_target"):
                        continue
                    if self.null_target(q[2:]):
                        yield [q[0], q[1]] + target
            else:
                yield r

    def bind(self, row, arg):
        """The rule in a lexicon that was derived with arg."""
        p = row[0]
        if p[0] == "arg":
            p = ["re", p[1] + re.escape(arg) + p[2] if isinstance(arg, str) else p[3], 0]
        elif p[0] == "ifarg":
            p = ["re", p[1] if arg else p[2], 0]
        return [p] + self.bind_items(row[1:], arg)

    def bind_items(self, items, arg):
        out = []
        for it in items:
            k = it[0]
            sub = lambda b: self.bind_items(b, arg)
            if k in ("tup", "lst"):
                out += sub(it[1])
            elif k == "by":
                out.append([k, [sub([a])[0] for a in it[1]]])
            elif k in ("a", "skip", "n", "lex"):
                out.append(it)
            elif k == "use":
                out.append([k, sub([it[1]])[0]])
            elif k == "tsel":
                out.append([k, it[1], bound(it[2], arg), it[3], bound(it[4], arg)] + it[5:])
            elif k == "ifgroup":
                out.append([k, it[1], sub(it[2]), sub(it[3])])
            elif k == "gselect":
                out.append([k, [None if b is None else sub(b) for b in it[1]], sub(it[2])])
            elif k in ("derive", "target"):
                out += self.one(it, None, None, arg) if it[1 if k == "target" else 2] == ["arg"] else [it]
            elif it[1] == ["arg"]:
                # what is chosen may again depend on the argument
                out += sub(self.branch(it, None, None, arg))
            elif k in ("ifeq", "ifneq", "ifmember"):
                out.append([k, it[1], it[2], sub(it[3]), sub(it[4])])
            elif k in ("dselect", "findmember"):
                out.append([k, it[1], [[x, sub(b)] for x, b in it[2]], sub(it[3])])
            elif k == "select":
                out.append([k, it[1], [sub(b) for b in it[2]]])
            elif k == "selpred":
                out.append([k, it[1], [sub(b) for b in it[2]], it[3] if len(it) > 3 else arg])
            else:
                raise ValueError(k)
        return out

    def null_target(self, items):
        if any(it[0] in ("tup", "lst") for it in items):
            raise Skip("a nested target")
        stack = []
        for it in items:
            if it[0] == "n":
                if it[1] < 0:
                    for _ in range(-it[1]):
                        if not stack:
                            return False
                        stack.pop()
                else:
                    stack += [0] * it[1]
            else:
                stack.append(0)
        return not stack

    def rules(self, lex):
        key = (lex[0], type(lex[1]).__name__, lex[1])
        if key in self.cache:
            return self.cache[key]
        index, arg = lex
        flags = self.spec[index]["flags"]
        pats = []
        default_action = default_target = None
        seen = set()
        names = set()
        for r in self.raw_rules(index):
            p = r[0]
            k = p[0]
            zero = False
            if k == "default_action":
                default_action = r[1]
                continue
            if k == "default_target":
                default_target = r[1:]
                continue
            if k == "re":
                pat = p[1]
            elif k == "zero":
                pat = p[1]
                zero = True
            elif k == "arg":
                pat = p[1] + re.escape(arg) + p[2] if isinstance(arg, str) else p[3]
            else:
                pat = p[1] if arg else p[2]
            if pat is None or pat in seen:
                continue
            seen.add(pat)
            try:
                rx = re.compile(pat, flags)
            except re.error:
                raise Skip("invalid regex")
            if names & set(rx.groupindex):
                raise Skip("repeated group name")
            names |= set(rx.groupindex)
            if not zero and rx.match(""):
                raise Skip("matches empty")
            pats.append((rx, r[1:], zero))
        if default_action is not None and default_target is not None:
            raise Skip("both defaults")
        self.cache[key] = res = (pats, default_action, default_target)
        return res

    # -- evaluation
    @staticmethod
    def value(v, text, m, arg):
        if v[0] == "text":
            return text
        if v[0] == "t":
            return text[v[1]:v[2]]
        if v[0] == "m":
            return m.group(v[1])
        if v[0] == "const":
            return v[1]
        return arg

    def flat(self, items, text, m, arg):
        """Evaluate the conditionals, return a flat list of basic items."""
        out = []
        for it in items:
            out += self.one(it, text, m, arg)
        return out

    def one(self, it, text, m, arg):
        k = it[0]
        if k == "use" and it[1][0] == "derive":
            return [[k, self.one(it[1], text, m, arg)[0]]]
        if k in ("a", "skip", "use", "by", "n", "lex"):
            return [it]
        if k == "derive":
            return [["lex", it[1], self.value(it[2], text, m, arg)]]
        if k == "target":
            r = choose_target(self.value(it[1], text, m, arg))
            if isinstance(r, int):
                return [["n", r]]
            return [["lex", it[2 + r[0]], r[1]]]
        if k == "tsel":
            arg_ = self.value(it[2], text, m, arg)
            i = it[3] if it[1] == 0 else it[6] if self.value(it[4], text, m, arg) == it[5] else it[7]
            return [["lex", i, arg_]]
        if k in ("tup", "lst"):
            return self.flat(it[1], text, m, arg)
        return self.flat(self.branch(it, text, m, arg), text, m, arg)

    def branch(self, it, text, m, arg):
        """The branch that the conditional item takes."""
        k = it[0]
        if k == "ifgroup":
            b = it[2] if m.group(it[1]) is not None else it[3]
        elif k == "gselect":
            b = it[2]
            for n, r in enumerate(it[1], 1):
                if r is not None and m.group(n) is not None:
                    b = r
                    break
        else:
            v = self.value(it[1], text, m, arg)
            if k == "ifeq":
                b = it[3] if v == it[2] else it[4]
            elif k == "ifneq":
                b = it[3] if v != it[2] else it[4]
            elif k == "ifmember":
                b = it[3] if v in list(it[2]) else it[4]
            elif k == "dselect":
                b = dict((x, y) for x, y in it[2]).get(v, it[3])
            elif k == "findmember":
                b = it[3]
                for s, r in it[2]:
                    if v in s:
                        b = r
                        break
            elif k == "select":
                b = it[2][len(str(v or "")) % len(it[2])]
            elif k == "selpred":
                a = it[3] if len(it) > 3 else arg
                b = it[2][(len(str(a or "")) + len(str(v or ""))) % len(it[2])]
            else:
                raise ValueError(k)
        return b

    def lexemes(self, act, pos, text, m, arg, steps):
        """Yield (pos, text, action) for a basic action item."""
        if not text:
            return []
        k = act[0]
        if k == "a":
            return [(pos, text, act[1])]
        if k == "skip":
            return []
        if k == "use":
            out = []
            if self.depth > 8:
                raise Skip("runaway delegation")
            self.depth += 1
            try:
                sub = self.run(text, (act[1][1], act[1][2]), steps)
            finally:
                self.depth -= 1
            for lex in sub[1]:
                out += [(pos + p, t, a) for p, t, a in lex]
            return out
        if k == "by":
            out = []
            for n, a in enumerate(act[1], 1):
                t = m.group(n)
                if t:
                    for b in self.one(a, t, m, arg):
                        out += self.lexemes(b, m.start(n), t, m, arg, steps)
            return out
        raise Skip("no action")     # a target ended up in the action position

    # -- lexing
    def run(self, text, root=(0, None), steps=None, pos=0):
        """Return (tree, events, open lexicons).

        tree is ["L", index, arg, children], a token is [pos, text, action, group].
        """
        steps = steps if steps is not None else [self.max_steps]
        stack = [Frame(root)]
        stack[0].node = ["L", root[0], root[1], []]
        events = []
        visited = set()

        def emit(act, p, t, m, arg):
            lx = self.lexemes(act, p, t, m, arg, steps)
            if self.anchored and lx and lx[0][0] != p:
                raise Skip("the match does not start with a token")
            if lx:
                for i, f in enumerate(stack):
                    if f.node is None:
                        f.node = ["L", f.lex[0], f.lex[1], []]
                        stack[i - 1].node[3].append(f.node)
                n = len(lx)
                for i, (p_, t_, a_) in enumerate(lx):
                    g = None if n == 1 else (i if i < n - 1 else -i)
                    stack[-1].node[3].append([p_, t_, a_, g])
                events.append(lx)

        while True:
            steps[0] -= 1
            if steps[0] < 0 or len(stack) > self.max_depth:
                raise Skip("runaway")
            top = stack[-1].lex
            arg = top[1]
            pats, default_action, default_target = self.rules(top)
            hit = None
            if default_target is not None and pats or not pats:
                positions = (pos,)
            else:
                positions = range(pos, len(text) + 1)
            for p in positions:
                for rx, items, zero in pats:
                    m = rx.match(text, p)
                    if m:
                        if not zero and not m.group():
                            raise Skip("empty match")
                        hit = (p, m, items)
                        break
                if hit:
                    break
            if hit is None:
                if pos < len(text):
                    if default_action is not None:
                        for b in self.one(default_action, text[pos:], None, arg):
                            emit(b, pos, text[pos:], None, arg)
                        break
                    elif default_target is not None:
                        hit = (pos, None, [["skip"]] + default_target)
                    else:
                        break
                else:
                    break
            p, m, items = hit
            if p > pos and default_action is not None:
                t = text[pos:p]
                for b in self.one(default_action, t, None, arg):
                    emit(b, pos, t, None, arg)
            pos = p
            txt = m.group() if m else ""
            act, *targets = self.flat(items, txt, m, arg)
            if act[0] not in ("a", "skip", "use", "by"):
                raise Skip("no action")
            # the net target: pop (from the existing stack) and push
            pop, push = 0, []
            for t in targets:
                if t[0] == "n":
                    if t[1] < 0:
                        for _ in range(-t[1]):
                            if push:
                                push.pop()
                            else:
                                pop += 1
                    else:
                        push += [Frame(top) for _ in range(t[1])]
                elif t[0] == "lex":
                    push.append(Frame((t[1], t[2])))
                else:
                    raise Skip("action as target")
            wants_change = bool(pop or push)
            pop = min(pop, len(stack) - 1)     # never pop root
            if txt:
                consume = push and self.spec[push[-1].lex[0]]["consume"]
                if not consume:
                    emit(act, p, txt, m, arg)
                if pop:
                    del stack[-pop:]
                stack += push
                if consume:
                    emit(act, p, txt, m, arg)
                pos += len(txt)
                visited.clear()
            else:
                if not wants_change:
                    raise Skip("empty match without target")
                if pop:
                    del stack[-pop:]
                state = (pos, tuple(f.lex for f in stack), tuple(f.lex for f in push))
                if state in visited:
                    if push or not pop:
                        if pos >= len(text):
                            break
                        pos += 1
                    visited.clear()
                else:
                    visited.add(state)
                stack += push
        return stack[0].node, events, [f.lex for f in stack[1:]]


# ----------------------------------------------------------- reading real trees

def dump_tree(ctx):
    """Convert a parce tree to the reference's nested list form."""
    lx = ctx.lexicon
    return ["L", int(lx.name[1:]), lx.arg,
            [dump_tree(n) if n.is_context else [n.pos, n.text, n.action, n.group] for n in ctx]]


def dump_any(ctx):
    """Dump a tree of any language; lexicons are kept as (qualname, arg)."""
    lx = ctx.lexicon
    return [lx and lx.qualname, lx and repr(lx.arg),
            [dump_any(n) if n.is_context else (n.pos, n.text, str(n.action), n.group) for n in ctx]]
