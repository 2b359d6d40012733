"""Fades are zero or one outside their intervals and follow the given function inside."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["the function that is given to the fade is an arbitrary function of the length and the index"]


def notation(w, name, i, n):
    """the ways in which an index can be given"""
    how = w.choice(name, ("plain", "negative"))
    if how == "negative":
        w.assume(i < n)
        return i - n
    return i


def fade(rise, fall, fractions=False):
    def h(w):
        n = w.concrete(w.int("length", 1, w.limit(8, 12))) if fractions else w.int("length", 1, BIG, (1, 6))

        def interval(name, given):
            if given is None:
                return None, None
            if given == "stop":
                if name == "rise":
                    b = w.int("rise_stop", 0, BIG, (0, 6))
                    w.assume(b <= n)
                    return (0, b), notation(w, "rise", b, n)
                a = w.int("fall_start", 0, BIG, (0, 6))
                w.assume(a <= n)
                return (a, n), notation(w, "fall", a, n)
            if fractions:
                x, y = w.choice(name, ((0.0, 0.5), (0.25, 1.0), (-0.75, -0.25), (0.5, 0.5), (0.125, 0.375)))
                return tuple(resolved(v, n) for v in (x, y)), (x, y)
            a = w.int(name + "_start", 0, BIG, (0, 6))
            b = w.int(name + "_stop", 0, BIG, (0, 6))
            w.assume(a <= b)
            w.assume(b <= n)
            return (a, b), (notation(w, name + "_from", a, n), b) if given == "tuple" else [a, notation(w, name + "_to", b, n)]
        (r, rise_interval), (f, fall_interval) = interval("rise", rise), interval("fall", fall)
        sr = w.real("sampling_rate", 1, 100000)
        s = w.sumpf.Fade(function=lambda m: w.function("fade", m), rise_interval=rise_interval, fall_interval=fall_interval, sampling_rate=sr, length=n)
        same_shape(w, s.channels(), (1, n), "fade")
        w.require(w.same(s.sampling_rate(), sr), "sampling rate")
        w.require(s.offset() == 0, "offset")

        def rising(i):
            a, b = r
            m = 2 * (b - a)
            return (i < a, 0.0), (i < b, element(w, m, i - a)), (True, 1.0)

        def falling(i):
            a, b = f
            m = 2 * (b - a)
            return (i < a, 1.0), (i < b, element(w, m, i - a + (b - a))), (True, 0.0)

        def select(pieces, function=lambda x: x):
            (_, y), = pieces[-1:]
            value = function(y)
            for condition, y in reversed(pieces[:-1]):
                value = w.ite(condition, function(y), value)
            return value
        if r is None or f is None:
            def want(i):
                return select(rising(i)) if r is not None else select(falling(i)) if f is not None else 1.0
            label = "Fade in" if r is not None else "Fade out" if f is not None else "Fade"
        elif bool(w.or_(r[0] < f[0], w.and_(r[0] == r[1], r[1] == f[0], f[0] != f[1]))):
            def want(i):
                return select(rising(i), lambda x: select(falling(i), lambda y: x * y))
            label = "Fade in-out"
        else:
            def want(i):
                return select(rising(i), lambda x: select(falling(i), lambda y: x + y))
            label = "Fade out-in"
        w.require(s.labels() == (label,), "label")
        w.forall((n,), lambda i: w.close(w.at(s.channels(), 0, i), want(i)), "samples")
    return h


def element(w, m, i):
    if w.symbolic:
        from engine import core
        return core.uf("fade", m, i)
    if m not in w.__dict__.setdefault("fades", {}):
        w.fades[m] = w.function("fade", m)
    return w.fades[m][i] if 0 <= i < m else 0.0


def resolved(x, n):
    i = round(x * n)
    while i < 0:
        i = i + n
    return i


CASES = [Case(n, fade(r, f), fallback=None, bounds="lengths up to 10^6", time_s=200)
         for n, r, f in (("none", None, None), ("rise", "tuple", None), ("fall", None, "list"), ("rise from the start", "stop", None), ("fall to the end", None, "stop"),
                         ("rise and fall", "tuple", "list"), ("rise from the start and fall to the end", "stop", "stop"))] + \
        [Case("fractions of the length", fade("tuple", "tuple", True), backend="B", fallback=None, bounds="lengths up to 8 (12)", time_s=200)]
