"""A reference lexer that interprets the published rules of any Lexicon.

It uses ``Lexicon.rules`` and evaluates dynamic items with their own
``evaluate``; matching, target handling, skipping, default actions and targets,
grouping and the building of the structure are done here, independently.
"""
import re

from .core import Skip


class RuleLexer:
    def __init__(self, max_steps=20000, max_depth=400):
        self.cache = {}
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.depth = 0

    def rules(self, lexicon):
        import parce
        key = id(lexicon)
        if key not in self.cache:
            pats = []
            seen = set()
            da = dt = None
            for pattern, *rule in lexicon.rules:
                if pattern is parce.default_action:
                    da = rule
                elif pattern is parce.default_target:
                    dt = rule
                elif pattern is not None and rule and pattern not in seen:
                    seen.add(pattern)
                    pats.append((re.compile(pattern, lexicon.re_flags), rule))
            self.cache[key] = pats, da, dt, lexicon
        return self.cache[key][:3]

    class Match:
        """What rule items see: a match inside a bigger expression."""
        lastindex = 0

        def __init__(self, m):
            self.m = m
            self.start = m.start
            self.end = m.end
            self.span = m.span
            self.string = m.string

        def group(self, n=0):
            return self.m.group(n)

    def flat(self, items, ns):
        from parce.ruleitem import Item, ActionItem
        out = []
        for it in items:
            if isinstance(it, ActionItem):
                r = it.evaluate(ns)
                out.append(r)
            elif isinstance(it, Item):
                out += self.flat([it.evaluate(ns)], ns)
            elif type(it) in (list, tuple):
                out += self.flat(it, ns)
            else:
                out.append(it)
        return out

    def lexemes(self, act, pos, text, m, steps):
        from parce.ruleitem import (
            Item, SkipAction, SubgroupAction, DelegateAction, ActionItem)
        if not text:
            return []
        if isinstance(act, SkipAction):
            return []
        if isinstance(act, SubgroupAction):
            out = []
            for i, a in enumerate(act.variations(), 1):
                t = m.group(i)
                if t:
                    for b in self.flat([a], {"text": t, "match": m}):
                        out += self.lexemes(b, m.start(i), t, m, steps)
            return out
        if isinstance(act, DelegateAction):
            if self.depth > 8:
                raise Skip("delegation")
            self.depth += 1
            try:
                lexicon, = act.variations()
                res = self.run(lexicon, text, steps)[1]
            finally:
                self.depth -= 1
            return [(pos + p, t, a) for lx in res for p, t, a in lx]
        if isinstance(act, Item):
            raise Skip("unknown item")
        return [(pos, text, act)]

    def run(self, lexicon, text, steps=None):
        """Return (nested, events, open lexicons)."""
        from parce.lexicon import Lexicon
        steps = steps if steps is not None else [self.max_steps]
        stack = [[lexicon, []]]     # [lexicon, children or None]
        events = []
        pos = 0
        visited = set()

        def emit(act, p, t, m):
            lx = self.lexemes(act, p, t, m, steps)
            if lx:
                for i, f in enumerate(stack):
                    if f[1] is None:
                        f[1] = []
                        stack[i - 1][1].append((f[0], f[1]))
                n = len(lx)
                for i, (p_, t_, a_) in enumerate(lx):
                    stack[-1][1].append((p_, t_, a_, None if n == 1 else i if i < n - 1 else -i))
                events.append(lx)

        while True:
            steps[0] -= 1
            if steps[0] < 0 or len(stack) > self.max_depth:
                raise Skip("runaway")
            lx = stack[-1][0]
            pats, da, dt = self.rules(lx)
            hit = None
            if dt is not None and da is None:
                for rx, rule in pats:
                    m = rx.match(text, pos)
                    if m:
                        hit = m, rule
                        break
            else:
                best = None
                for rx, rule in pats:
                    m = rx.search(text, pos)
                    if m and (best is None or m.start() < best):
                        best = m.start()
                        hit = m, rule
            if hit is None:
                if pos < len(text) and da is not None:
                    t = text[pos:]
                    for a in self.flat(da[:1], {"text": t}):
                        emit(a, pos, t, None)
                    break
                elif pos < len(text) and dt is not None:
                    m, items = None, [None] + list(dt)
                    p, txt = pos, ""
                else:
                    break
            else:
                m, rule = hit
                p, txt = m.start(), m.group()
                m = self.Match(m)
                items = self.flat(rule, {"text": txt, "match": m})
            if p > pos and da is not None:
                t = text[pos:p]
                for a in self.flat(da[:1], {"text": t}):
                    emit(a, pos, t, None)
            pos = p
            act, *targets = items
            pop, push = 0, []
            for t in targets:
                if isinstance(t, Lexicon):
                    push.append([t, None])
                elif t < 0:
                    for _ in range(-t):
                        if push:
                            push.pop()
                        else:
                            pop += 1
                else:
                    push += [[lx, None] for _ in range(t)]
            change = pop or push
            pop = min(pop, len(stack) - 1)
            if txt:
                consume = push and push[-1][0].consume
                if not consume:
                    emit(act, p, txt, m)
                if pop:
                    del stack[-pop:]
                stack += push
                if consume:
                    emit(act, p, txt, m)
                pos += len(txt)
                visited.clear()
            else:
                if not change:
                    raise Skip("empty match without target")
                if pop:
                    del stack[-pop:]
                state = (pos, tuple(id(f[0]) for f in stack), tuple(id(f[0]) for f in push))
                if state in visited:
                    if push or not pop:
                        if pos >= len(text):
                            break
                        pos += 1
                    visited.clear()
                else:
                    visited.add(state)
                stack += push
        return stack[0][1], events, [f[0] for f in stack[1:]]
