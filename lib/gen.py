"""Thin generator layer over Hypothesis' choice sequence (every random choice is Hypothesis')."""
from hypothesis import strategies as st
from hypothesis.control import current_build_context


class G:
    def __init__(self, d):
        self.d = d

    def int(self, a, b):
        return self.d.draw_integer(a, b)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False."""
        return self.d.draw_integer(0, den - 1) >= den - num

    def choice(self, l):
        return l[self.d.draw_integer(0, len(l) - 1)]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks to the first."""
        tot = 0
        for w, _ in pairs:
            tot += w
        x = self.d.draw_integer(0, tot - 1)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def list(self, f, lo, hi):
        return list(self.rep(lo, hi, f))

    def rep(self, lo, hi, f):
        """Between lo and hi repetitions, in a form the shrinker can delete from."""
        d = self.d
        n = lo + (hi - lo + 1) // 2 if hi > lo else lo
        out = []
        mean = (lo + hi) / 2.0 - lo
        p = mean / (mean + 1.0) if mean > 0 else 0
        while len(out) < hi:
            d.start_span(77)
            if len(out) >= lo and not d.draw_boolean(p):
                d.stop_span()
                break
            out.append(f())
            d.stop_span()
        return out


def from_g(fn):
    @st.composite
    def s(draw):
        draw(st.just(0))
        return fn(G(current_build_context().data))
    return s()
