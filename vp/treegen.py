"""Generated trees, built directly from Context and Token objects.

A spec is a list of nodes: ["t", gap, text, action], ["g", gap, [[gap, text, action], ...]]
or ["c", lexicon, [nodes]]. Only trees a parser can produce: contexts below the
root are never empty, tokens never overlap, a token group is never interrupted.
Gaps (text not covered by a token) occur everywhere.
"""
TEXTS = ["a", "b", "ab", "x", "foo", "bar", "a\nb", " "]
NLEX = 8
_lang = None


def lang():
    global _lang
    if _lang is None:
        from parce import Language, lexicon
        import parce.action as A

        class TreeLang(Language):
            @lexicon
            def root(cls):
                yield "a", A.Text

            @lexicon
            def one(cls):
                yield "a", A.Text

            @lexicon
            def two(cls):
                yield "a", A.Text

        class OtherLang(Language):
            @lexicon
            def root(cls):
                yield "a", A.Text

            @lexicon
            def one(cls):
                yield "a", A.Text

        class ThirdLang(Language):
            @lexicon
            def root(cls):
                yield "a", A.Text
        _lang = TreeLang, OtherLang, ThirdLang
    return _lang


def lexicons():
    L, M, N = lang()
    return [L.root, L.one, L.two, L.two("x"), L.one("y"), M.root, M.one("z"), N.root]


def actions():
    import parce.action as A
    return [A.Text, A.Name, A.Name.Tag, A.Literal, A.Literal.String, A.Literal.Number, A.Name.Tag.Definition,
            A.Delimiter]


def gen_gap(s):
    return s.pick([0, 0, 0, 0, 1, 1, 2, 5])


def gen_tok(s):
    return ["t", gen_gap(s), s.pick(TEXTS), s.int(0, 7)]


def gen_node(s, depth):
    k = s.int(0, 9)
    if k >= 6 and depth > 0:
        return ["c", s.int(0, NLEX - 1), s.list(lambda s: gen_node(s, depth - 1), 1, 8, 2.2)]
    if k == 5:
        return ["g", gen_gap(s), [[gen_gap(s) if i else 0, s.pick(TEXTS), s.int(0, 7)] for i in range(s.int(2, 4))]]
    return gen_tok(s)


def gen_tree(s, depth=6, big=20):
    return s.list(lambda s: gen_node(s, depth), 0, big, 5)


class Built:
    """A real tree, and a model of it that shares no navigation code with parce."""

    def __init__(self, spec):
        from parce.tree import Context, Token, GroupToken
        L = lexicons()
        A = actions()
        self.root = Context(L[0], None)
        self.nodes = []         # all nodes in document order, root first
        self.path = {}          # id(node) -> tuple of (context, index)
        self.group = {}         # id(token) -> list of tokens
        self.pos = 0
        self.chars = []

        def text_gap(n):
            self.chars.append("~" * n)
            self.pos += n

        def token(cls_args, text, action, ctx, path):
            if cls_args is None:
                t = Token(ctx, self.pos, text, A[action])
            else:
                t = GroupToken(cls_args, ctx, self.pos, text, A[action])
            self.chars.append(text)
            self.pos += len(text)
            self.path[id(t)] = path + ((ctx, len(ctx)),)
            ctx.append(t)
            self.nodes.append(t)
            return t

        def fill(ctx, spec, path):
            self.path[id(ctx)] = path
            self.nodes.append(ctx)
            for n in spec:
                if n[0] == "c":
                    c = Context(L[n[1]], ctx)
                    p = path + ((ctx, len(ctx)),)
                    ctx.append(c)
                    fill(c, n[2], p)
                elif n[0] == "t":
                    text_gap(n[1])
                    token(None, n[2], n[3], ctx, path)
                else:
                    text_gap(n[1])
                    group = []
                    z = len(n[2]) - 1
                    for i, (gap, text, action) in enumerate(n[2]):
                        text_gap(gap)
                        group.append(token(-i if i == z else i, text, action, ctx, path))
                    for t in group:
                        self.group[id(t)] = group
        fill(self.root, spec, ())
        self.tokens = [n for n in self.nodes if n.is_token]
        self.contexts = [n for n in self.nodes if n.is_context]
        # tokens below every context
        self.below = {id(c): [] for c in self.contexts}
        for t in self.tokens:
            for c, _ in self.path[id(t)]:
                self.below[id(c)].append(t)

    def anc(self, n):
        """Ancestors, nearest first."""
        return [c for c, i in reversed(self.path[id(n)])]

    def span(self, n):
        if n.is_token:
            return n.pos, n.pos + len(n.text)
        b = self.below[id(n)]
        return (b[0].pos, b[-1].pos + len(b[-1].text)) if b else (0, 0)


def ids(nodes):
    return [id(n) for n in nodes]


def show(nodes):
    return [repr(n) for n in nodes]
