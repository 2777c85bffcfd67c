"""Choice-sequence based generation with integrated shrinking.

A generator is a function ``gen(src)`` that builds a JSON-serialisable case by
asking a :class:`Src` for choices. The sequence of choices made is recorded;
replaying a sequence replays the case, and a failing case is shrunk by
simplifying its choice sequence (deleting, zeroing and lowering choices), so
every shrunk case is one the generator can produce.
"""
import random


class Src:
    """A source of choices: random, or a given prefix (then random or zero)."""

    def __init__(self, rnd=None, prefix=(), pad=False):
        self.rnd = rnd
        self.prefix = prefix
        self.pad = pad
        self.i = 0
        self.record = []

    def _raw(self, n):
        """Return a number 0 <= x < n."""
        i = self.i
        self.i += 1
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = v % n if self.rnd else n - 1
        elif self.rnd is not None:
            v = self.rnd.randrange(n)
        else:
            v = 0
        self.record.append(v)
        return v

    def int(self, lo, hi):
        """An integer lo <= x <= hi; simplest is lo."""
        if hi <= lo:
            return lo
        return lo + self._raw(hi - lo + 1)

    def pick(self, seq):
        """One of the items; simplest is the first."""
        return seq[self._raw(len(seq))]

    def bool(self, p=0.5):
        """True with probability p; simplest is False."""
        # 0..99 so that lowering leads to False
        return self._raw(1000) >= 1000 - int(1000 * p)

    def one_in(self, n):
        return self._raw(n) == n - 1

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest is the first."""
        total = sum(w for w, _ in pairs)
        x = self._raw(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w

    def list(self, fn, min=0, max=10, avg=None):
        """A list of fn(self) results, length min..max."""
        if avg is None:
            avg = (min + max) / 2
        out = [fn(self) for _ in range(min)]
        if max > min:
            more = 1 - 1 / (1 + (avg - min if avg > min else .1))
            while len(out) < max and self.bool(more):
                out.append(fn(self))
        return out

    def text(self, alphabet, min=0, max=10, avg=None):
        return "".join(self.list(lambda s: s.pick(alphabet), min, max, avg))

    def sample(self, seq, k):
        """k distinct items (fewer if there are not as many)."""
        seq = list(seq)
        out = []
        while seq and len(out) < k:
            out.append(seq.pop(self._raw(len(seq))))
        return out

    def shuffle(self, seq):
        return self.sample(seq, len(seq))


def shrink(choices, fails, stop):
    """Return a simpler choice sequence for which ``fails(choices)`` is true.

    ``stop()`` is asked regularly, and returns True when time is up.
    """
    best = list(choices)

    def attempt(new):
        nonlocal best
        if new == best or stop():
            return False
        rec = fails(new)
        if rec is None:
            return False
        rec = list(rec)
        # only accept what is simpler
        if (len(rec), rec) < (len(best), best):
            best = rec
            return True
        return False

    improved = True
    while improved and not stop():
        improved = False
        # delete chunks
        for k in (64, 32, 16, 8, 5, 4, 3, 2, 1):
            i = len(best) - k
            while i >= 0 and not stop():
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                    i = min(i, len(best) - k)
                else:
                    i -= max(1, k // 2) if k > 8 else 1
        # delete a chunk and lower an earlier choice (a length)
        # zero chunks
        for k in (8, 4, 2, 1):
            i = 0
            while i + k <= len(best) and not stop():
                if any(best[i:i + k]) and attempt(best[:i] + [0] * k + best[i + k:]):
                    improved = True
                i += k
        # lower single choices
        i = 0
        while i < len(best) and not stop():
            lo, v = 0, best[i]
            if v > 1:
                # binary search
                while lo + 1 < v and i < len(best):
                    mid = (lo + v) // 2
                    if attempt(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        if i >= len(best):
                            break
                        v = best[i]
                        if v <= lo:
                            break
                    else:
                        lo = mid
            if i < len(best) and best[i] > 0:
                if attempt(best[:i] + [best[i] - 1] + best[i + 1:]):
                    improved = True
            i += 1
    return best
