"""C07: transforming a text, a tree, and an updated tree give the same result."""
from vp import edits as E
from vp import langs as B
from vp import langgen as G
from vp.core import Aspect, HarnessError, Skip, Violation, need, same


class Res:
    """The result of a transform method: refers to the items it was called with."""
    def __init__(self, name, arg, items):
        self.name, self.arg, self.items = name, arg, items


def describe_context(c):
    return ("untransformed", c.lexicon, [describe_context(n) if n.is_context else token(n) for n in c])


def token(t):
    return (t.pos, t.text, t.action, t.group)


def resolve(r):
    """Make a comparable value of a Res, now."""
    if r is None:
        return None
    out = []
    for i in r.items:
        if i.is_token:
            out.append(token(i))
        elif i.name == "<untransformed>":
            out.append((i.name, describe_context(i.obj)))
        else:
            need(isinstance(i.obj, Res), "item {!r} has no result", i.name)
            same(i.name, i.obj.name, "name of the item")
            out.append((i.name, resolve(i.obj)))
    return (r.name, r.arg, out)


def plan(names, bits):
    """Decide per lexicon: method, method with add_untransformed, None, or nothing."""
    out = {}
    for n, name in enumerate(sorted(names)):
        out[name] = ("method", "method", "method", "untransformed", "untransformed",
                     "none", "missing", "method")[bits[n % len(bits)] % 8]
    return out


def make_transform(p):
    from parce.transform import Transform, add_untransformed

    def make(name):
        def method(self, items):
            for i in items:
                need(hasattr(i, "is_token"), "item {!r}", i)
            # copy: the list itself may be anyone's
            return Res(name, items.arg, list(items))
        method.__name__ = name
        return method
    ns = {}
    for name, kind in p.items():
        if kind == "method":
            ns[name] = make(name)
        elif kind == "untransformed":
            ns[name] = add_untransformed(make(name))
        elif kind == "none":
            ns[name] = None
    return type("GenTransform", (Transform,), ns)()


def reference(context, plan_of):
    """What the documentation says a tree transforms to."""
    def kind(c):
        p = plan_of(c.lexicon.language)
        return p.get(c.lexicon.name, "missing") if p is not None else "missing"

    def tr(c):
        want_un = kind(c) == "untransformed"
        out = []
        for n in c:
            if n.is_token:
                out.append(token(n))
            elif kind(n) in ("method", "untransformed"):
                out.append((n.lexicon.name, tr(n)))
            elif want_un:
                out.append(("<untransformed>", describe_context(n)))
        return (c.lexicon.name, c.lexicon.arg, out)
    if context.lexicon is None or kind(context) not in ("method", "untransformed"):
        return None
    return tr(context)


def lexicon_names(language):
    from parce.lexicon import Lexicon
    return [n for n in dir(language) if isinstance(getattr(language, n), Lexicon)]


def check(case, lexicon):
    from parce.transform import Transformer, transform_text, transform_tree
    from parce.treebuilder import TreeBuilder, build_tree
    bits = case["bits"]
    plans = {}

    def plan_of(language):
        try:
            return plans[language]
        except KeyError:
            p = plan(lexicon_names(language), bits[len(plans) % 3:] + bits)
            if len(plans) and bits[0] == 7 and bits[1] > 3:
                p = None
            plans[language] = p
            return p

    class T(Transformer):
        def find_transform(self, language):
            p = plan_of(language)
            return None if p is None else make_transform(p)
    text = case["text"]
    plan_of(lexicon.language)
    pos = min(case["pos"], len(text))
    tree = build_tree(lexicon, text, pos)
    want = reference(tree, plan_of)
    got_text = resolve(T().transform_text(lexicon, text, pos))
    compare(got_text, want, "transform_text of {!r} at {}".format(text, pos))
    got = resolve(T().transform_tree(tree))
    compare(got, want, "transform_tree of {!r}".format(text))
    # convenience functions, for one language only
    if want is not None:
        first = plans[lexicon.language]
        only = {k: None for k in list(plans)}
        only[lexicon.language] = first
        w1 = reference(tree, lambda l: first if l is lexicon.language else None)
        compare(resolve(transform_tree(tree, make_transform(first))) if len(plans) == 1 else w1, w1, "transform_tree()")
        if len(plans) == 1:
            compare(resolve(transform_text(lexicon, text, make_transform(first), pos)), w1, "transform_text()")
    # incremental, with one Transformer for two builders
    t = T()
    log = []
    for ev in ("started", "updated", "finished"):
        t.connect(ev, lambda *a, ev=ev: log.append((ev,) + a))
    builder, other = TreeBuilder(lexicon), TreeBuilder(lexicon)
    builders = [builder, other]
    texts = [text, text[:len(text) // 2]]
    interesting = 0
    for b, tx in zip(builders, texts):
        t.connect_treebuilder(b)
        b.rebuild(tx)
    roots = [lexicon] + case.get("roots", [])
    last = [None, None]
    for n, (which, e) in enumerate(case["edits"]):
        b = builders[which]
        tx = texts[which]
        if e[0] == "root":
            b.rebuild(tx, roots[e[1] % len(roots)])
        else:
            start = e[0] % (len(tx) + 1)
            removed = min(e[1], len(tx) - start)
            tx = tx[:start] + e[2] + tx[start + removed:]
            if case.get("ref"):
                for r in case["ref"]:
                    r(tx)
            texts[which] = tx
            log.clear()
            b.rebuild(tx, False, start, removed, len(e[2]))
            same([l[:2] for l in log], [("started", b.root), ("updated", b.root), ("finished", b.root)],
                 "events of the transformer")
            need(log[1][2] is t.result(b.root), "updated event has another result")
        for i, bb in enumerate(builders):
            want = reference(bb.root, plan_of)
            compare(resolve(t.result(bb.root)), want,
                    "edit {} {!r}: result for builder {} with text {!r}".format(n, e, i, texts[i]))
            if i == which:
                interesting += want is not None and nested(want) > 3
    for b in builders:
        t.disconnect_treebuilder(b)
    r = t.result(builder.root)
    for pre in case.get("ref", ()):
        pre(texts[0] + "x")
    builder.rebuild(texts[0] + "x", False, len(texts[0]), 0, 1)
    need(t.result(builder.root) is r, "a disconnected transformer still got updated")
    return interesting


def nested(r):
    """The number of results in a result."""
    return 1 + sum(nested(i[1]) for i in r[2] if len(i) == 2 and len(i[1]) == 3 and i[0] != "<untransformed>")


def compare(got, want, what):
    if got != want:
        raise Violation("{}: got {!r}, expected {!r}".format(what, got, want)[:3000])


def gen_edits(s, piece, roots):
    def e(s):
        which = int(s.one_in(4))
        if roots and s.one_in(10):
            return [which, ["root", s.int(0, 9)]]
        return [which, [s.int(0, 199), s.pick([0, 0, 0, 1, 1, 2, 3, 5, 9, 30]), "".join(s.list(piece, 0, 3, 1.5))]]
    return s.list(e, 0, 6, 3)


def gen_bits(s):
    return [s.pick([0, 0, 1, 2, 3, 4, 5])] + [s.int(0, 7) for _ in range(6)]


def gen_generated(s):
    spec = G.language_spec(s, local=bool(s.int(0, 1)))
    piece = G.piece_gen(spec)
    text = "".join(s.list(piece, 0, 40, 15))
    return {"spec": spec, "text": text, "bits": gen_bits(s), "split": s.pick([1, 1, 2]),
            "pos": s.pick([0, 0, s.int(0, 10)]), "edits": gen_edits(s, piece, True)}


@G.guard
def check_generated(case):
    ref = G.RefLexer(case["spec"], max_steps=6000)
    roots = [(i, arg) for arg in (None, "a") for i in range(len(case["spec"]))]
    lang = G.build_language(case["spec"], split=case["split"])
    case = dict(case)

    def pre(text):
        for r in roots:
            ref.run(text, r)
    pre(case["text"])
    ref.run(case["text"], pos=min(case["pos"], len(case["text"])))
    pre(case["text"][:len(case["text"]) // 2])
    case["ref"] = [pre]
    case["roots"] = [lang.l0("a")] + [getattr(lang, "l{}".format(i)) for i in range(len(case["spec"]))
                                      if hasattr(lang, "l{}".format(i))] + [None]
    return check(case, lang.l0)


def gen_bundled(s):
    qual = s.pick(B.QUALNAMES)
    piece = B.pieces(qual)
    text = "".join(s.list(piece, 0, 40, 15))
    return {"lang": qual, "text": text, "bits": gen_bits(s), "pos": s.pick([0, 0, s.int(0, 10)]),
            "edits": gen_edits(s, piece, False)}


def check_bundled(case):
    return check(case, B.lexicon(case["lang"]))


def gen_items(s):
    """An item list: tokens with an action, items with a name; and calls of its methods."""
    def entry(s):
        if s.one_in(3):
            return ["t", s.pick("abc"), s.int(0, 99)]
        return ["i", s.pick("abcd"), s.pick([None, 0, "", s.int(1, 99)])]
    items = s.list(entry, 0, 12, 6)
    peeks = []
    for _ in range(s.int(1, 6)):
        index = s.int(-len(items) - 3, len(items) + 2)
        n = s.pick([0, 1, 1, 2, 3, len(items)])
        part = [i[:2] for i in items[index if index >= 0 else max(0, index + len(items)):][:n]]
        if s.one_in(3):
            part = part + [["t", "a"]] if s.one_in(2) else [["i", "a"]] + part[1:]
        peeks.append([index, part])
    return {"items": items, "peeks": peeks, "groups": [s.shuffle(list("abcd"))[:s.int(1, 4)] for _ in range(3)],
            "arg": s.pick([None, "", 0, "x"])}


def check_items(case):
    from parce.action import Text
    from parce.transform import Item, ItemList
    from parce.tree import Token
    action = {n: getattr(Text, n.upper()) for n in "abc"}
    items = [Token(None, i[2], i[1], action[i[1]]) if i[0] == "t" else Item(i[1], i[2]) for i in case["items"]]
    il = ItemList(case["arg"], items)
    same(il.arg, case["arg"], "argument")
    need(len(il) == len(items) and all(a is b for a, b in zip(il, items)), "items of the list")
    toks, its = list(il.tokens()), list(il.items())
    need([id(t) for t in toks] == [id(x) for x, i in zip(items, case["items"]) if i[0] == "t"], "tokens() of {!r}", case["items"])
    same([tuple(i) for i in its], [(i[1], i[2]) for i in case["items"] if i[0] == "i"], "items() of {!r}".format(case["items"]))
    for index, part in case["peeks"]:
        if not part:
            continue
        start = index if index >= 0 else index + len(items)
        want = start >= 0 and [i[:2] for i in case["items"]][start:start + len(part)] == part and start + len(part) <= len(items)
        got = il.peek(index, *[action[n] if k == "t" else n for k, n in part])
        same(bool(got), want, "peek({}, {!r}) of {!r}".format(index, part, case["items"]))
    grouped = 0
    for names in case["groups"]:
        # each group takes the objects whose names come in the given order
        want, last = [], len(names)
        for k, name, obj in case["items"]:
            if k == "i" and name in names:
                n = names.index(name)
                if n <= last:
                    want.append([None] * len(names))
                want[-1][n] = obj
                last = n
        # (the yielded lists are not to be shared)
        got = list(il.grouped_objects(*names))
        same([list(g) for g in got], want, "grouped_objects({}) of {!r}".format(", ".join(names), case["items"]))
        grouped = max(grouped, len(want))
    return grouped > 1 and bool(toks)


ASPECTS = [
    Aspect("itemlist", gen_items, check_items, quick=3000, shards=1, thorough=60000,
           rule="a list with tokens gave more than one group of objects"),
    Aspect("generated", gen_generated, check_generated, quick=2500, shards=8, thorough=40000,
           rule="an updated tree gave a result containing more than two other results"),
    Aspect("bundled", gen_bundled, check_bundled, quick=2000, shards=8, thorough=30000,
           rule="an updated tree gave a result containing more than two other results"),
]
