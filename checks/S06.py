"""Arithmetic between two spectrograms aligns them in time and frequency."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["1 to 3 channels per operand (1 to 2 for power), 1 to 10^6 samples and frequencies, offsets -10^6 to 10^6"]


def harness(op):
    fn, pivot, label = OPS[op]
    cmax = 2 if op == "pow" else 3

    def h(w):
        a, ra = spectrogram(w, "a", cmax=cmax)
        b, rb = spectrogram(w, "b", cmax=cmax)
        r = fn(a, b)
        channels = max(ra.c, rb.c)
        start = w.min(ra.o, rb.o)
        stop = w.max(ra.o + ra.n, rb.o + rb.n)
        freqs = w.max(ra.f, rb.f)
        w.require(r.offset() == start, "the result starts with the earlier operand")
        same_shape(w, r.channels(), (channels, freqs, stop - start), "result")
        w.require(r.sampling_rate() == ra.sr, "sampling rate")
        w.require(r.resolution() == ra.resolution, "resolution")
        w.require(r.number_of_frequencies() == freqs, "number_of_frequencies()")
        w.require(r.labels() == (label,) * channels, "one label per channel, naming the operation")
        for c in range(channels):
            ca = 0 if ra.c == 1 else c
            cb = 0 if rb.c == 1 else c

            def check(k, i):
                t = i + start
                in_a = w.and_(ca < ra.c, k < ra.f, t >= ra.o, t < ra.o + ra.n)
                in_b = w.and_(cb < rb.c, k < rb.f, t >= rb.o, t < rb.o + rb.n)
                va = lambda: ra.at(ca, k, t - ra.o) if ca < ra.c else 0.0
                vb = lambda: rb.at(cb, k, t - rb.o) if cb < rb.c else 0.0
                want = w.ite(in_a,
                             lambda: w.ite(in_b, lambda: fn(va(), vb()), va),
                             lambda: w.ite(in_b, (vb if pivot is None else lambda: fn(pivot, vb())), 0.0))
                return w.same(w.at(r.channels(), c, k, i), want)
            w.forall((freqs, stop - start), check, f"channel {c}")
        ra.unchanged("first operand")
        rb.unchanged("second operand")
    return h


CASES = [Case(op, harness(op), bounds="channels 1..3 (pow: 1..2), sizes 1..10^6, |offset| <= 10^6", time_s=200) for op in OPS if op != "mod"]
