"""Arithmetic of a spectrogram with a signal or a spectrum, in either order, extends the latter over frequency or time."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["1 to 3 channels per operand (1 to 2 for power), 1 to 10^6 samples and frequencies, offsets -10^6 to 10^6"]


def combine(w, fn, pivot, in_x, vx, in_y, vy):
    return w.ite(in_x, lambda: w.ite(in_y, lambda: fn(vx(), vy()), vx), lambda: w.ite(in_y, (vy if pivot is None else lambda: fn(pivot, vy())), 0.0))


def with_signal(op, left):
    fn, pivot, label = OPS[op]
    cmax = 2 if op == "pow" else 3

    def h(w):
        a, ra = spectrogram(w, "a", cmax=cmax)
        b, rb = signal(w, "b", cmax=cmax, sr=100.0)
        r = fn(a, b) if left else fn(b, a)
        channels = max(ra.c, rb.c)
        start = w.min(ra.o, rb.o)
        stop = w.max(ra.o + ra.n, rb.o + rb.n)
        w.require(type(r).__name__ == "Spectrogram", "the result is a spectrogram")
        w.require(r.offset() == start, "the result starts with the earlier operand")
        same_shape(w, r.channels(), (channels, ra.f, stop - start), "result")
        w.require(w.and_(r.sampling_rate() == ra.sr, r.resolution() == ra.resolution), "axes")
        w.require(r.labels() == (label,) * channels, "one label per channel, naming the operation")
        for c in range(channels):
            ca = 0 if ra.c == 1 else c
            cb = 0 if rb.c == 1 else c

            def check(k, i):
                t = i + start
                A = (w.and_(ca < ra.c, t >= ra.o, t < ra.o + ra.n), lambda: ra.at(ca, k, t - ra.o) if ca < ra.c else 0.0)
                B = (w.and_(cb < rb.c, t >= rb.o, t < rb.o + rb.n), lambda: rb.at(cb, t - rb.o) if cb < rb.c else 0.0)
                return w.same(w.at(r.channels(), c, k, i), combine(w, fn, pivot, *(A + B if left else B + A)))
            w.forall((ra.f, stop - start), check, f"channel {c}")
        ra.unchanged("spectrogram operand")
        rb.unchanged("signal operand")
    return h


def with_spectrum(op, left):
    fn, pivot, label = OPS[op]
    cmax = 2 if op == "pow" else 3

    def h(w):
        f = w.int("frequencies", 1, BIG, (1, 2))
        a, ra = spectrogram(w, "a", cmax=cmax, frequencies=f)
        b, rb = spectrum(w, "b", cmax=cmax, length=f)
        r = fn(a, b) if left else fn(b, a)
        channels = max(ra.c, rb.c)
        w.require(type(r).__name__ == "Spectrogram", "the result is a spectrogram")
        same_shape(w, r.channels(), (channels, f, ra.n), "result")
        w.require(w.and_(r.offset() == ra.o, r.sampling_rate() == ra.sr, r.resolution() == ra.resolution), "axes")
        w.require(r.labels() == (label,) * channels, "one label per channel, naming the operation")
        for c in range(channels):
            ca = 0 if ra.c == 1 else c
            cb = 0 if rb.c == 1 else c

            def check(k, i):
                A = (ca < ra.c, lambda: ra.at(ca, k, i))
                B = (cb < rb.c, lambda: rb.at(cb, k))
                return w.same(w.at(r.channels(), c, k, i), combine(w, fn, pivot, *(A + B if left else B + A)))
            w.forall((f, ra.n), check, f"channel {c}")
        ra.unchanged("spectrogram operand")
        rb.unchanged("spectrum operand")
    return h


def mismatch(w):
    """a spectrum with another number of frequencies is refused"""
    a, ra = spectrogram(w, "a", cmax=2)
    b, rb = spectrum(w, "b", cmax=2)
    w.assume(ra.f != rb.n)
    for x, y in ((a, b), (b, a)):
        try:
            x + y
        except ValueError:
            w.require(True, "refused")
        else:
            w.fail("refused with a ValueError")


CASES = []
for op in OPS:
    if op == "mod":
        continue
    for left in (True, False):
        side = "left" if left else "right"
        CASES.append(Case(f"{op} signal, spectrogram {side}", with_signal(op, left), bounds="channels 1..3, sizes 1..10^6, |offset| <= 10^6"))
        CASES.append(Case(f"{op} spectrum, spectrogram {side}", with_spectrum(op, left), bounds="channels 1..3, sizes 1..10^6"))
CASES.append(Case("number of frequencies differs", mismatch, bounds="sizes 1..10^6"))
