"""Shared vocabulary: Violation, Ctx (counters of one case) and G (draws, all through Hypothesis)."""


class Violation(Exception):
    """The code under test broke the property (as opposed to an error of the harness)."""


class Hang(Violation):
    """A library call did not return within a time that is thousands of times its normal duration."""


class HarnessError(Exception):
    """The check itself failed; never a verdict about the code."""


class Ctx:
    """What one case covered; filled in by check()."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels.add(n)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class G:
    """Thin layer over Hypothesis' ConjectureData: every choice is a Hypothesis choice, so it shrinks."""

    def __init__(self, data):
        self.d = data

    def int(self, lo, hi):
        if lo >= hi:
            return lo
        return self.d.draw_integer(lo, hi)

    def bool(self, p=0.5):
        if p <= 0:
            return False
        if p >= 1:
            return True
        return self.d.draw_boolean(p)

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def shuffled(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = self.int(0, len(seq) - 1 - i)
            if j:
                seq[i], seq[i + j] = seq[i + j], seq[i]
        return seq

    def weighted(self, pairs):
        """pairs: [(weight, value)], simplest value first."""
        total = sum(w for w, _ in pairs)
        n = self.int(0, total - 1)
        for w, v in pairs:
            if n < w:
                return v
            n -= w
        return pairs[-1][1]

    def float(self, lo=-1e6, hi=1e6):
        return self.d.draw_float(lo, hi, allow_nan=False)

    def list(self, lo, hi, fn, cont=0.6):
        """lo..hi elements, geometric tail; each element is a span so that it can be deleted whole."""
        out = []
        while len(out) < hi:
            self.d.start_span(1)
            more = len(out) < lo or self.bool(cont)
            if not more:
                self.d.stop_span()
                break
            out.append(fn(len(out)))
            self.d.stop_span()
        return out

    def span(self, fn):
        self.d.start_span(2)
        r = fn()
        self.d.stop_span()
        return r


def same(a, b, path="$"):
    """None if a and b are the same JSON value (true is not 1), else a description of the first difference."""
    if isinstance(a, bool) or isinstance(b, bool):
        if a is b:
            return None
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return None if a == b else "%s: %r != %r" % (path, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s: key %r only on the left (%s)" % (path, k, short(a[k]))
        for k in b:
            if k not in a:
                return "%s: key %r only on the right (%s)" % (path, k, short(b[k]))
        for k in a:
            r = same(a[k], b[k], "%s.%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d != %d (%s vs %s)" % (path, len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if type(a) is type(b) and a == b:
        return None
    return "%s: %s != %s" % (path, short(a), short(b))


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def require_same(a, b, what):
    r = same(a, b)
    if r:
        raise Violation("%s: %s" % (what, r))
