"""Arithmetic between two spectra pairs channels, broadcasting single-channel spectra."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["1 to 3 channels per operand, 1 to 10^6 frequency bins; both spectra of equal length"]


def harness(op):
    fn, pivot, label = OPS[op]

    def h(w):
        n = w.int("length", 1, BIG, (1, 2))
        a, ra = spectrum(w, "a", length=n)
        b, rb = spectrum(w, "b", length=n)
        r = fn(a, b)
        channels = max(ra.c, rb.c)
        same_shape(w, r.channels(), (channels, n), "result")
        w.require(r.resolution() == ra.resolution, "resolution")
        w.require(r.labels() == (label,) * channels, "one label per channel, naming the operation")
        for c in range(channels):
            ca = 0 if ra.c == 1 else c
            cb = 0 if rb.c == 1 else c

            def check(i):
                if ca < ra.c and cb < rb.c:
                    want = fn(ra.at(ca, i), rb.at(cb, i))
                elif ca < ra.c:
                    want = ra.at(ca, i)
                else:
                    want = rb.at(cb, i) if pivot is None else fn(pivot, rb.at(cb, i))
                return w.same(w.at(r.channels(), c, i), want)
            w.forall((n,), check, f"channel {c}")
        ra.unchanged("first operand")
        rb.unchanged("second operand")
    return h


def mixed(w):
    """a spectrum does not combine with a signal"""
    n = w.int("length", 1, BIG, (1, 2))
    a, ra = spectrum(w, "a", length=n, cmax=2)
    b, rb = signal(w, "b", length=n, cmax=2)
    f = w.sumpf.Filter()
    for x, y in ((a, b), (b, a), (a, f), (f, a), (b, f), (f, b)):
        for name in ("add", "sub", "mul", "div", "pow"):
            if name == "mul" and (x is f or y is f):
                continue
            try:
                OPS[name][0](x, y)
            except TypeError:
                w.require(True, "refused")
            else:
                w.fail(f"{name} of {type(x).__name__} and {type(y).__name__} is refused with a TypeError")


B = "channels 1..3 each, length 1..10^6"
CASES = [Case(op, harness(op), bounds=B) for op in OPS if op != "mod"] + [Case("spectrum and signal", mixed, bounds="length 1..10^6")]
