"""C29: introspection and validation tell what a language definition can do."""
import io
import itertools
import re
from contextlib import redirect_stdout

from vp import langgen as G
from vp import langs as B
from vp.core import Aspect, Skip, Violation, need, same

NUM = "#"


# ------------------------------------------------------------------ variations

def possible(items):
    """The set of (signatures of) basic item sequences a list of spec items can give."""
    out = {()}
    for it in items:
        out = {a + b for a in out for b in possible_one(it)}
        if len(out) > 3000:
            raise Skip("too many variations")
    return out


def possible_one(it):
    k = it[0]
    if k == "a":
        return {(it[1],)}
    if k == "skip":
        return {("skip",)}
    if k == "n":
        return {(it[1],)}
    if k in ("lex", "derive"):
        return {(("L", it[1]),)}
    if k == "use":
        return {(("L", it[1][1]),)}
    if k == "by":
        return set().union(*(possible_one(a) for a in it[1]))
    if k in ("tup", "lst"):
        return possible(it[1])
    if k == "tsel":
        if it[1] == 0:
            return {(("L", it[3]),)}
        if it[4][0] == "const":
            return {(("L", it[6] if it[4][1] == it[5] else it[7]),)}
        return {(("L", i),) for i in it[6:8]}
    if k == "target":
        return {(NUM,), (("L", it[2]),), (("L", it[3]),)}
    if k in ("ifeq", "ifneq", "ifmember"):
        branches = [it[3], it[4]]
    elif k == "dselect":
        branches = [b for x, b in it[2]] + [it[3]]
    elif k == "findmember":
        branches = [b for x, b in it[2]] + [it[3]]
    elif k in ("select", "selpred"):
        branches = it[2]
    elif k == "ifgroup":
        branches = [it[2], it[3]]
    else:
        branches = [b for b in it[1] if b is not None] + [it[2]]
    return set().union(*(possible(b) for b in branches))


def sig(v):
    """The signature of an item of a real variation."""
    from parce.lexicon import Lexicon
    from parce import ruleitem, skip
    if isinstance(v, Lexicon):
        return ("L", int(v.name[1:]))
    if v is ruleitem.a_number:
        return NUM
    if v is skip:
        return "skip"
    if isinstance(v, (int, str)):
        return v
    raise Violation("unexpected item in a variation: {!r}".format(v))


def fits(v, w):
    """The variation v is w, possibly with a number filled in."""
    return len(v) == len(w) and all(x == y or y == NUM and isinstance(x, int) for x, y in zip(v, w))


def flat_tree(t):
    """All paths through a variations tree."""
    out = [()]
    for item in t:
        if isinstance(item, frozenset):
            choices = [p for b in item for p in flat_tree(b)]
        elif isinstance(item, (tuple, list)):
            choices = flat_tree(item)
        else:
            choices = [(item,)]
        out = [a + b for a in out for b in choices]
    return out


def gen_variations(s):
    spec = G.language_spec(s)
    return {"lang": spec, "arg": s.pick([None, None, "a", "b", "+"]), "texts": s.list(lambda s: G.spec_text(s, spec), 1, 3)}


def check_variations(case):
    from parce import ruleitem, default_action, default_target
    spec = case["lang"]
    ref = G.RefLexer(spec)
    lang = G.build_language(spec)
    rich = False
    for i in range(len(spec)):
        rows = [r for r in ref.raw_rules(i)]
        plain = getattr(lang, "l{}".format(i))
        for lx, arg in ((plain, None), (plain(case["arg"]), case["arg"])):
            built = lx.rules
            same(len(built), len(rows), "number of rules")
            for rule, row in zip(built, rows):
                want = possible(row[1:])
                got = {tuple(map(sig, v)) for v in ruleitem.variations(rule[1:])}
                for v in got:
                    need(any(fits(v, w) for w in want), "variation {!r} of rule {!r} is not possible", v, rule)
                if arg is None and "arg" not in repr(row) and "findmember" not in repr(row):
                    same(got, want, "variations of {!r}".format(rule))
                tree = {tuple(map(sig, v)) for v in flat_tree(ruleitem.variations_tree(rule[1:]))}
                same(tree, got, "paths of the decision tree of {!r}".format(rule))
                if len(want) > 3:
                    rich = True
                # what the rule really gives is among them
                if row[0][0] in ("default_target", "default_action") or not isinstance(rule[0], str):
                    continue
                try:
                    rx = re.compile(rule[0], spec[i]["flags"])
                except re.error:
                    raise Skip("invalid regex")
                for text in case["texts"]:
                    for m in itertools.islice(rx.finditer(text), 3):
                        if not m.group():
                            continue
                        # the real code counts groups from the rule's own named group
                        m2 = re.compile("(?P<g_0>{})".format(rule[0]), spec[i]["flags"]).match(text, m.start())
                        if not m2 or m2.group() != m.group():
                            continue
                        act = ref.flat(row[1:], m.group(), m, arg)
                        real = list(ruleitem.evaluate_rule(rule[1:], m2))
                        same(len(real), len(act), "length of the evaluated rule {!r}".format(rule))
                        body = tuple(x if isinstance(x, int) else ("L", int(x.name[1:])) for x in real[1:])
                        same(body, tuple(a[1] if a[0] == "n" else ("L", a[1]) for a in act[1:]), "evaluated targets of {!r}".format(rule))
                        ok = any(len(v) == len(real) and all(
                            y == x or y == NUM and isinstance(x, int) for x, y in zip(body, v[1:])) for v in got)
                        need(ok, "rule {!r} gives {!r}, which is not one of its variations {!r}", rule, real, got)
        # the rules with the items that depend on the argument not evaluated
        from parce import introspect
        if case["arg"] is not None:
            # built rules of a derived lexicon: the argument is filled in
            drows = [ref.bind(r, case["arg"]) for r in rows]
            trees = list(introspect.decision_tree(plain(case["arg"]), True))
            iterated = list(plain(case["arg"]))
            same(len(trees), len(drows), "number of rules in the decision tree")
            same(len(iterated), len(drows), "number of rules")
            for tree, row, rule in zip(trees, drows, iterated):
                want = possible(row[1:])
                pats = {p[0] for p in flat_tree(tree)}
                if row[0][0] in ("re", "zero"):
                    same(pats, {row[0][1]}, "patterns in the decision tree of a derived lexicon")
                    same(rule[0], row[0][1], "pattern of a derived lexicon")
                got = {tuple(map(sig, p[1:])) for p in flat_tree(tree)}
                for v in got:
                    need(v in want or any(fits(v, w) for w in want), "variation {!r} of rule {!r} is not possible", v, row)
                if "findmember" not in repr(row):
                    same(got, want, "paths of the decision tree of {!r} with {!r}".format(row, case["arg"]))
                same({tuple(map(sig, v)) for v in ruleitem.variations(rule[1:])}, got, "variations of {!r}".format(rule))
        for build in (False, True):
            trees = list(introspect.decision_tree(plain, build))
            same(len(trees), len(rows), "number of rules in the decision tree")
            for tree, row in zip(trees, rows):
                want = possible(row[1:])
                pats = {p[0] for p in flat_tree(tree)}
                got = {tuple(map(sig, p[1:])) for p in flat_tree(tree)}
                for v in got:
                    need(v in want, "variation {!r} of rule {!r} is not possible", v, row)
                if "findmember" not in repr(row):
                    same(got, want, "paths of the decision tree of {!r}".format(row))
                k = row[0][0]
                if k in ("re", "zero"):
                    same(pats, {row[0][1]}, "patterns in the decision tree")
                elif k == "default_action":
                    same(pats, {default_action}, "patterns in the decision tree")
                elif k == "default_target":
                    same(pats, {default_target}, "patterns in the decision tree")
                else:
                    same(pats, {None, ruleitem.a_string}, "patterns in the decision tree")
    return rich


# --------------------------------------------------------- lexicons of a language

def gen_classes(s):
    n = s.int(1, 5)
    names = ["root", "string", "comment", "a", "b"]
    classes = []
    for i in range(n):
        bases = s.sample(list(range(i)), s.int(0, min(2, i))) if i else []
        classes.append({"bases": sorted(bases, reverse=True), "lex": s.sample(names, s.int(0, 4)), "hide": s.sample(names, 1) if s.one_in(6) else [],
                        "targets": [s.int(0, n - 1) for _ in range(3)], "shape": s.int(0, 4)})
    return {"classes": classes}


def check_classes(case):
    from parce import introspect, lexicon, Language, rule as R
    from parce.action import Text, Name, Keyword
    acts = [Text, Name, Keyword]
    made = []

    def make(name, me, targets, shape):
        def rules(cls):
            yield name, acts[len(name) % 3]
            for t in targets:
                for ln in ("root", "a"):
                    if t < len(made) and hasattr(made[t], ln) and made[t] is not None:
                        act, lx = acts[t % 3], getattr(made[t], ln)
                        pat = name + str(t) + ln
                        if shape == 0:
                            yield pat, act, [lx]
                        elif shape == 1:
                            yield pat, R.ifeq(R.TEXT, "a", [act, lx], (acts[0], [-1, [lx]]))
                        elif shape == 2:
                            yield pat, R.bygroup(act, R.using(lx))
                        elif shape == 3:
                            yield pat, act, R.derive(lx, R.TEXT)
                        else:
                            yield pat, act, lx
        rules.__name__ = name
        return lexicon(rules)
    for i, c in enumerate(case["classes"]):
        ns = {n: make(n, i, c["targets"], c["shape"]) for n in c["lex"]}
        ns["__module__"] = "vpgen"
        ns["other"] = 3
        bases = tuple(made[b] for b in c["bases"]) or (Language,)
        try:
            made.append(type(Language)("K{}".format(i), bases, ns))
        except TypeError:
            raise Skip("inconsistent bases")
    for i, cls in enumerate(made):
        names = sorted({n for k in cls.__mro__ for j, c in enumerate(case["classes"]) if made[j] is k for n in c["lex"]})
        got = introspect.lexicons(cls)
        same([l.name for l in got], names, "lexicons of class {}".format(i))
        need(all(l is getattr(cls, l.name) and l.language is cls for l in got), "lexicons belong to another class")
        used, refs = set(), set()
        for n in names:
            # the class that defines the lexicon
            k = next(c for c in cls.__mro__ if n in c.__dict__)
            spec = case["classes"][made.index(k)]
            used.add(acts[len(n) % 3])
            for t in spec["targets"]:
                for ln in ("root", "a"):
                    if hasattr(made[t], ln):
                        used.add(acts[t % 3])
                        refs.add(made[t])
                        if spec["shape"] == 1:
                            used.add(acts[0])
        same(introspect.standardactions(cls), used, "standardactions")
        same(introspect.languages(cls), refs - {cls}, "languages")
    return len(made) > 2


# ------------------------------------------------------- the bundled languages

def gen_bundled(s):
    q = s.pick(B.QUALNAMES)
    return {"lang": q, "text": B.text(s, q, 30)}


_reach = {}


def reach(lang):
    """All languages that can be entered from lang, with the actions they use."""
    from parce import introspect
    if lang not in _reach:
        todo, seen, acts = [lang], [], set()
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.append(l)
            acts |= introspect.standardactions(l)
            todo += introspect.languages(l)
        _reach[lang] = set(seen), acts
    return _reach[lang]


def check_bundled(case):
    from parce.treebuilder import build_tree
    from parce import introspect
    from parce.standardaction import StandardAction
    root = B.lexicon(case["lang"])
    langs, acts = reach(root.language)
    tree = build_tree(root, case["text"])
    seen = set()
    todo = [tree]
    while todo:
        c = todo.pop()
        need(c.lexicon.language in langs, "{!r} is not among the languages that {!r} refers to", c.lexicon.language, root.language)
        need(c.lexicon in introspect.lexicons(c.lexicon.language), "{!r} is not listed in its language", c.lexicon)
        for n in c:
            if n.is_context:
                todo.append(n)
            elif isinstance(n.action, StandardAction):
                seen.add(n.action)
                need(n.action in acts, "action {!r} is not among the actions of {!r}", n.action, root.language)
    return len(seen) > 2


def fixed_bundled():
    return [{"lang": q, "text": B.DATA[q]["example"] or "x"} for q in B.QUALNAMES]


def gen_valid_bundled(s):
    return {"lang": s.pick(B.QUALNAMES)}


def check_valid_bundled(case):
    from parce.validate import validate_language
    root = B.lexicon(case["lang"])
    out = io.StringIO()
    with redirect_stdout(out):
        ok = validate_language(root.language)
    need(ok is True, "{} is not valid: {}", case["lang"], out.getvalue()[:500])
    need(" error: " not in out.getvalue(), "errors printed for a valid language: {}", out.getvalue()[:500])
    return True


# ------------------------------------------------------------------- validating

def gen_faulty(s):
    spec = G.language_spec(s)
    kind = s.pick(["none", "regex", "short", "two_actions", "both", "target", "target", "two_targets", "repeat", "nopat", "default_item", "empty", "empty"])
    return {"lang": spec, "kind": kind, "lex": s.int(0, len(spec) - 1), "at": s.int(0, 4), "bad": s.int(0, 5), "wrap": s.int(0, 4), "second": s.pick([None, None, s.int(0, 3)])}


EMPTY = ["q*", "(?:qu)?x?y*", "(?=q)|$", "(?i:q)?", "  #c", "^\\Z"]


def check_faulty(case):
    import parce
    from parce import rule as R, default_action, default_target, lexicon, Language, skip
    from parce.validate import LexiconValidator, validate_language
    spec = case["lang"]
    ref = G.RefLexer(spec)
    base = G.build_language(spec)
    # leave out what is not valid in itself
    for ls in spec:
        ls["rules"] = [r for r in ls["rules"] if r[0][0] not in ("default_target", "default_action")]
    for i in range(len(spec)):
        for arg in (None,):
            try:
                pats = ref.rules((i, arg))[0]
            except Skip as e:
                if "matches" not in str(e):
                    raise
            # every alternative must start with an action, the others are targets
            for r in ref.raw_rules(i):
                for v in possible(r[1:]):
                    if any(isinstance(x, str) and x != NUM for x in v[1:]):
                        raise Skip("an action in a target")
    index, kind, second = case["lex"], case["kind"], case.get("second")
    bads = ["x", 1.5, b"b", parce.Language, ("y",), "zz"]
    bad = bads[case["bad"]]

    def planted(cls):
        if kind == "regex":
            yield ["(", "a)", "[b", "(?P<1>x)", "*", "a**"][case["bad"]], "A"
        elif kind == "short":
            yield ("pat",) if case["bad"] < 3 else ()
        elif kind == "two_actions":
            yield default_action, "A"
            yield default_action, ["A", "B"][case["bad"] % 2]
        elif kind == "two_targets":
            yield default_target, -1
            yield default_target, -1
        elif kind == "both":
            yield default_action, "A"
            yield default_target, -1
        elif kind == "default_item":
            yield default_target, [-1, "x", "A", "b"][1 + case["bad"] % 3]
        elif kind == "target":
            w = case["wrap"]
            if w == 0:
                yield "q+", "A", bad
            elif w == 1:
                yield "q+", "A", -1, R.ifeq(R.TEXT, "q", -1, bad)
            elif w == 2:
                yield "q+", R.ifeq(R.TEXT, "q", ("A", bad), "B")
            elif w == 3:
                yield "(q)+", R.bygroup("A"), bad
            else:
                yield "q+", skip, bad
        elif kind == "repeat":
            yield "qq", "A"
            yield "qq", "B"
        elif kind == "nopat":
            yield None, "A"
        elif kind == "empty":
            yield EMPTY[case["bad"]], "A", -1
    name = "l{}".format(index)

    def rules(cls):
        # the rules of the valid language without the defaults
        own = [r for r in getattr(base, name) if r and r[0] not in (default_action, default_target)]
        at = case["at"] % (len(own) + 1)
        yield from own[:at]
        yield from planted(cls)
        yield from own[at:]
    rules.__name__ = name

    def make(i):
        if i == index:
            return lexicon(re_flags=spec[i]["flags"], consume=spec[i]["consume"])(rules)

        def other(cls):
            if i == second:
                yield "q+", "A", 1.5
            yield from (r for r in getattr(base, "l{}".format(i)) if r and r[0] not in (default_action, default_target))
        other.__name__ = "l{}".format(i)
        return lexicon(re_flags=spec[i]["flags"], consume=spec[i]["consume"])(other)
    ns = {"l{}".format(i): make(i) for i in range(len(spec))}
    ns["__module__"] = "vpgen"
    lang = type(Language)("F", (Language,), ns)
    two = second is not None and second != index and second < len(spec)
    faulty = kind in ("regex", "short", "two_actions", "two_targets", "both", "target", "default_item")
    printed = set()
    for i in range(len(spec)):
        v = LexiconValidator(getattr(lang, "l{}".format(i)))
        ok = v.validate()
        want = not (faulty and i == index or i == second != index)
        same(bool(ok), want, "validate() of lexicon {} with {}; errors {}".format(i, kind, v.errors))
        same(not v.errors, want, "no errors in lexicon {} with {}".format(i, kind))
        need(all(str(getattr(lang, "l{}".format(i))) in e for e in v.errors), "errors do not name the lexicon: {}", v.errors)
        if i == index and kind == "empty":
            empty = bool(re.compile(EMPTY[case["bad"]], spec[i]["flags"]).match(""))
            got = any(w.endswith("pattern {!r} matches the empty string".format(EMPTY[case["bad"]])) for w in v.warnings)
            same(got, empty, "a warning that {!r} matches the empty string, with flags {}; {}".format(EMPTY[case["bad"]], spec[i]["flags"], v.warnings))
        if i == index and kind in ("repeat", "nopat"):
            need(any("repeated" in w if kind == "repeat" else "None" in w for w in v.warnings), "no warning for {}: {}", kind, v.warnings)
        # validating again gives the same
        e, w = set(v.errors), set(v.warnings)
        same((bool(v.validate()), v.errors, v.warnings), (want, e, w), "validate() called again")
        printed |= e | w
    out = io.StringIO()
    with redirect_stdout(out):
        ok = validate_language(lang)
    faulty = faulty or two
    same(bool(ok), not faulty, "validate_language() with {}".format(kind))
    same(" error: " in out.getvalue(), faulty, "errors printed")
    same(sorted(out.getvalue().splitlines()), sorted(l for msg in printed for l in msg.splitlines()), "printed messages")
    return faulty


# -------------------------------------------------------- circular default targets

def gen_circular(s):
    n = s.int(1, 4)
    lex = []
    for i in range(n):
        if s.one_in(4):
            lex.append(None)
        else:
            lex.append(s.list(lambda s: s.pick([["L", s.int(0, n - 1)], ["n", s.pick([-1, -1, -2, 1])], ["L", s.int(0, n - 1)]]), 1, 2))
    return {"lex": lex, "pat": s.bool()}


def fate(lex, i):
    """What comes of following the default targets from lexicon i alone:
    "end", "root" (popped off), "null" (a target that changes nothing), "loop" or "run"."""
    counter = itertools.count()
    state = [(next(counter), i)]
    seen = {state[-1]: 0}
    for n in range(1000):
        cur = state[-1]
        t = lex[cur[1]]
        if t is None:
            return "end", n
        for k, v in t:
            if k == "n" and v < 0:
                if len(state) + v < 1:
                    return "root", n
                del state[v:]
            elif k == "n":
                state += [(next(counter), cur[1]) for _ in range(v)]
            else:
                state.append((next(counter), v))
        if state[-1] == cur:
            return "null", n
        if state[-1] in seen:
            return "loop", n
        seen[state[-1]] = n
    return "run", n


def check_circular(case):
    from parce import lexicon, Language, default_target
    from parce.validate import LexiconValidator
    from parce.lexer import Lexer
    lex = case["lex"]
    fates = [fate(lex, i) for i in range(len(lex))]
    if any(n > 60 and k != "run" for k, n in fates):
        raise Skip("a long chain of default targets")

    def make(i):
        def rules(cls):
            if case["pat"] or lex[i] is None:
                yield "x", "A"
            if lex[i] is not None:
                yield (default_target, *(v if k == "n" else getattr(cls, "l{}".format(v)) for k, v in lex[i]))
        rules.__name__ = "l{}".format(i)
        return lexicon(rules)
    ns = {"l{}".format(i): make(i) for i in range(len(lex))}
    ns["__module__"] = "vpgen"
    lang = type(Language)("D", (Language,), ns)
    for i, (kind, n) in enumerate(fates):
        l = getattr(lang, "l{}".format(i))
        v = LexiconValidator(l)
        ok = v.validate()
        same(bool(ok), kind not in ("null", "run"), "validate() of a lexicon with default targets {!r}, which come to {!r}; errors {}".format(lex, kind, v.errors))
        same(any("handled circular" in w for w in v.warnings), kind == "loop", "warning about a handled circular target")
    if not any(k in ("null", "run") for k, n in fates):
        # a valid language is lexed in a finite time
        for i in range(len(lex)):
            lexer = Lexer([getattr(lang, "l{}".format(i))])
            for text in ("", "x", "yyy", "xyx"):
                list(lexer.events(text))
                lexer = Lexer([getattr(lang, "l{}".format(i))])
    return any(k in ("run", "loop") for k, n in fates)


# --------------------------------------------------------------- validate_transform

def gen_tf(s):
    return {"lex": s.list(lambda s: s.pick(["method", "method", "none", "missing", "untransformed", "inherited"]), 1, 5)}


def check_tf(case):
    from parce import lexicon, Language
    from parce.transform import Transform
    from parce.validate import validate_transform

    def make(name):
        def rules(cls):
            yield name, "A"
        rules.__name__ = name
        return lexicon(rules)
    names = ["l{}".format(i) for i in range(len(case["lex"]))]
    ns = {n: make(n) for n in names}
    ns["__module__"] = "vpgen"
    lang = type(Language)("T", (Language,), ns)
    base, own = {}, {}
    for n, k in zip(names, case["lex"]):
        def meth(self, items):
            return 1
        if k == "inherited":
            base[n] = meth
        elif k == "none":
            own[n] = None
        elif k == "untransformed":
            from parce.transform import Transform as T

            class Holder:
                pass
            try:
                from parce.transform import add_untransformed
                meth = add_untransformed(meth)
            except ImportError:
                meth.add_untransformed = True
            own[n] = meth
        elif k == "method":
            own[n] = meth
    tf = type("MyTransform", (type("Base", (Transform,), base),), own)()
    out = io.StringIO()
    with redirect_stdout(out):
        ok = validate_transform(tf, lang)
    same(bool(ok), "missing" not in case["lex"], "validate_transform()")
    for n, k in zip(names, case["lex"]):
        lines = [l for l in out.getvalue().splitlines() if re.search(r"\b{}\b".format(n), l)]
        want = {"missing": "Missing", "none": "ignores", "untransformed": "untransformed"}.get(k)
        if want is None:
            same(lines, [], "messages about {}".format(n))
        else:
            need(len(lines) == 1 and want in lines[0], "message about {} ({}): {!r}", n, k, lines)
    return len(case["lex"]) > 1


ASPECTS = [
    Aspect("variations", gen_variations, check_variations, quick=1200, shards=4, rule="a rule with more than three variations"),
    Aspect("classes", gen_classes, check_classes, quick=500, shards=1, rule="more than two language classes"),
    Aspect("bundled", gen_bundled, check_bundled, quick=150, shards=2, fixed=fixed_bundled, rule="more than two actions occur"),
    Aspect("valid", gen_valid_bundled, check_valid_bundled, quick=1, shards=1, fixed=lambda: [{"lang": q} for q in B.QUALNAMES], rule="every case"),
    Aspect("faulty", gen_faulty, check_faulty, quick=1200, shards=2, rule="a fault was planted in a valid language"),
    Aspect("circular", gen_circular, check_circular, quick=1500, shards=2, rule="default targets that run away, or return to an open context"),
    Aspect("transform", gen_tf, check_tf, quick=200, shards=1, rule="more than one lexicon"),
]
