"""Arithmetic between two signals aligns them in time."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["1 to 3 channels per operand (1 to 2 for power and modulo), lengths 1 to 10^6, offsets -10^6 to 10^6"]


def harness(op):
    fn, pivot, label = OPS[op]
    cmax = 2 if op in ("pow", "mod") else 3

    def h(w):
        a, ra = signal(w, "a", cmax=cmax)
        b, rb = signal(w, "b", cmax=cmax)
        r = fn(a, b)
        channels = max(ra.c, rb.c)
        start = w.min(ra.o, rb.o)
        stop = w.max(ra.o + ra.n, rb.o + rb.n)
        w.require(r.offset() == start, "the result starts with the earlier operand")
        same_shape(w, r.channels(), (channels, stop - start), "result")
        w.require(r.length() == stop - start, "length()")
        w.require(r.sampling_rate() == ra.sr, "sampling rate")
        w.require(r.labels() == (label,) * channels, "one label per channel, naming the operation")
        for c in range(channels):
            ca = 0 if ra.c == 1 else c
            cb = 0 if rb.c == 1 else c

            def check(i, c=c, ca=ca, cb=cb):
                t = i + start
                in_a = w.and_(ca < ra.c, t >= ra.o, t < ra.o + ra.n)
                in_b = w.and_(cb < rb.c, t >= rb.o, t < rb.o + rb.n)
                va = lambda: ra.at(ca, t - ra.o) if ca < ra.c else 0.0
                vb = lambda: rb.at(cb, t - rb.o) if cb < rb.c else 0.0
                want = w.ite(in_a,
                             lambda: w.ite(in_b, lambda: fn(va(), vb()), va),
                             lambda: w.ite(in_b, (vb if pivot is None else lambda: fn(pivot, vb())), 0.0))
                return w.same(w.at(r.channels(), c, i), want)
            w.forall((stop - start,), check, f"channel {c}")
        ra.unchanged("first operand")
        rb.unchanged("second operand")
    return h


CASES = [Case(op, harness(op), bounds="channels 1..3 (pow, mod: 1..2), lengths 1..10^6, |offset| <= 10^6", time_s=150) for op in OPS]
