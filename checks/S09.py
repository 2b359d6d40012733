"""Convolution of signals in all modes."""
from .common import *
from .reference import *

ASSUMPTIONS = REALS + DFT + ["1 to 3 channels, lengths 1 to 5 (thorough: 7), offsets -10^6 to 10^6; elements within [-1, 1], frequency domain modes compared with a tolerance of 1e-6"]
KIND = "convolve"


def full(a, n, b, m, kind):
    """the complete convolution (or correlation) as a function of the index"""
    def at(k):
        v = 0.0
        for i in range(max(0, k - m + 1), min(n, k + 1)):
            v = v + a(i if kind == "convolve" else n - 1 - i) * b(k - i)
        return v
    return at


def expected(w, mode, kind, n, m, oa, ob):
    """the indices of the complete result that end up in the given mode's result, and the result's offset"""
    start = oa + ob if kind == "convolve" else ob - oa - (n - 1)
    longest, shortest = max(n, m), min(n, m)
    if mode in ("FULL", "SPECTRUM_PADDED"):
        return [[k] for k in range(n + m - 1)], start
    if mode == "SAME":
        skip = (shortest - 1) // 2
        return [[k + skip] for k in range(longest)], start + skip
    if mode == "VALID":
        return [[k + shortest - 1] for k in range(longest - shortest + 1)], start + shortest - 1
    period = longest + longest % 2
    return [[k for k in range(i, n + m - 1, period)] for i in range(longest)], start


def harness(mode, kind, form):
    def h(w):
        ca = w.concrete(w.int("a_channels", 1, 3)) if form != "wide" else 1
        cb = {"signal": None, "wide": None, "mono": 1, "vector": 1, "array": None}[form]
        if cb is None:
            cb = w.concrete(w.int("b_channels", 2, 3)) if form == "wide" else w.concrete(w.int("b_channels", 1, 3))
        n = w.concrete(w.int("a_length", 1, w.limit(5, 7)))
        m = w.concrete(w.int("b_length", 1, w.limit(5, 7)))
        if ca > 2 or cb > 2:
            w.assume(n + m <= w.limit(6, 8))
        a, ra = signal(w, "a", channels=ca, length=n, **BOX)
        if form in ("vector", "array"):
            data = w.array("b", (m,) if form == "vector" else (cb, m), lo=-1, hi=1)
            rb = Ref(w, data, ())
            b = data
            ob = 0
            bt = (lambda c, i: rb.at(i)) if form == "vector" else rb.at
        else:
            b, rb = signal(w, "b", channels=cb, length=m, **BOX)
            ob = rb.o
            bt = rb.at
        r = getattr(a, kind)(b, getattr(w.sumpf.Signal.convolution_modes, mode)) if mode != "SPECTRUM_PADDED" or form != "mono" else getattr(a, kind)(b)
        picked, offset = expected(w, mode, kind, n, m, ra.o, ob)
        channels = max(ca, cb) if min(ca, cb) == 1 else min(ca, cb)
        same_shape(w, r.channels(), (channels, len(picked)), "result")
        w.require(r.offset() == offset, "offset")
        w.require(r.sampling_rate() == ra.sr, "sampling rate")
        if form in ("vector", "array"):
            w.require(r.labels()[0:ca] == ra.labels[0:channels], "labels of the signal")
        else:
            w.require(r.labels() == ({"convolve": "Convolution", "correlate": "Correlation"}[kind],) * channels, "labels")
        for c in range(channels):
            f = full(lambda i: ra.at(c if ca > 1 else 0, i), n, lambda i: bt(c if cb > 1 else 0, i), m, kind)
            for i, ks in enumerate(picked):
                want = sum((f(k) for k in ks), 0.0)
                w.require(w.close(w.at(r.channels(), c, i), want), f"channel {c}, sample {i}")
        ra.unchanged("first operand")
        rb.unchanged("second operand")
    return h


def scalar(kind):
    def h(w):
        a, ra = signal(w, "a", cmax=2)
        v = w.real("v")
        mode = w.choice("mode", ("FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED"))
        r = getattr(a, kind)(v, getattr(w.sumpf.Signal.convolution_modes, mode))
        w.require(w.and_(r.offset() == ra.o, r.sampling_rate() == ra.sr), "axis")
        same_shape(w, r.channels(), (ra.c, ra.n), "result")
        w.forall((ra.c, ra.n), lambda c, i: w.same(w.at(r.channels(), c, i), ra.at(c, i) * v), "scaled samples")
        ra.unchanged("operand")
    return h


BOX = {"lo": -1, "hi": 1}
MODES = ("FULL", "SAME", "VALID", "SPECTRUM", "SPECTRUM_PADDED")


def cases(kind):
    r = []
    for mode in MODES:
        for form in ("signal", "wide", "mono", "vector", "array"):
            if form == "array" and mode not in ("FULL", "SPECTRUM"):
                continue
            r.append(Case(f"{mode} {form}", harness(mode, kind, form), backend="B", fallback=None, witnesses=12,
                          bounds="channels 1..3, lengths 1..5 (7), |offset| <= 10^6"))
    r.append(Case("scalar", scalar(kind), bounds="lengths 1..10^6"))
    return r


CASES = cases("convolve")
