"""Shifting, padding and reversing move samples exactly as documented."""
from .common import *

ASSUMPTIONS = MODEL + ["1 to 2 channels, 1 to 10^6 samples, shifts -3*10^6 to 3*10^6 (spectrograms: and 1 to 10^6 frequencies)"]
LIM = 3 * BIG


def build(w, kind):
    return signal(w, "a", cmax=2) if kind == "signal" else spectrogram(w, "a", cmax=2) if kind == "spectrogram" else spectrum(w, "a", cmax=2)


def meta(w, kind, r, ra, offset):
    if kind != "spectrum":
        w.require(r.offset() == offset, "offset")
        w.require(r.sampling_rate() == ra.sr, "sampling rate")
    if kind != "signal":
        w.require(r.resolution() == ra.resolution, "resolution")
    w.require(r.labels() == ra.labels, "labels")


def shift(kind, mode, beyond=False):
    def h(w):
        a, ra = build(w, kind)
        s = w.int("shift", -LIM, LIM, (-7, 7))
        if mode == "CYCLE":
            w.assume(w.and_(s > -2 * ra.n, s < 2 * ra.n, w.abs(s) > ra.n if beyond else w.abs(s) <= ra.n))
        r = a.shift(s, getattr(w.sumpf.Signal.shift_modes if kind == "signal" else w.sumpf.Spectrogram.shift_modes, mode))
        n = ra.n
        meta(w, kind, r, ra, ra.o + s if mode == "OFFSET" else ra.o)
        length = n + w.abs(s) if mode == "PAD" else n
        dims = w.shape(ra.data)[:-1] + (length,)
        same_shape(w, r.channels(), dims, "shifted")

        def want(*i):
            lead, t = i[:-1], i[-1]
            if mode == "OFFSET":
                return ra.at(*i)
            if mode == "CYCLE":
                src = t - s
                src = w.ite(src < 0, src + n, w.ite(src >= n, src - n, src))
                return ra.at(*lead, w.ite(src < 0, src + n, w.ite(src >= n, src - n, src)))
            src = t - s if mode == "CROP" else t - w.max(s, 0)
            return w.ite(w.and_(src >= 0, src < n), lambda: ra.at(*lead, src), 0.0)
        w.forall(dims, lambda *i: w.same(w.at(r.channels(), *i), want(*i)), "samples")
        ra.unchanged("shifted data")
    return h


def shift_none(kind):
    def h(w):
        a, ra = build(w, kind)
        r = a.shift(None)
        meta(w, kind, r, ra, 0)
        dims = w.shape(ra.data)
        same_shape(w, r.channels(), dims, "same samples")
        w.forall(dims, lambda *i: w.same(w.at(r.channels(), *i), ra.at(*i)), "same samples")
    return h


def pad(kind):
    def h(w):
        a, ra = build(w, kind)
        length = w.int("length", 0, LIM, (0, 5))
        if w.bool("value_given"):
            v = w.real("value")
            r = a.pad(length, v)
        else:
            v = 0.0
            r = a.pad(length)
        n = ra.n
        meta(w, kind, r, ra, getattr(ra, "o", None))
        dims = w.shape(ra.data)[:-1] + (length,)
        same_shape(w, r.channels(), dims, "padded")
        w.forall(dims, lambda *i: w.same(w.at(r.channels(), *i), w.ite(i[-1] < n, lambda: ra.at(*i), v)), "cropped or continued with the value")
        ra.unchanged("padded data")
    return h


def reverse(w):
    a, ra = build(w, "signal")
    r = reversed(a)
    n = ra.n
    dims = (ra.c, n)
    meta(w, "signal", r, ra, r.offset())
    same_shape(w, r.channels(), dims, "reversed")
    w.forall(dims, lambda c, i: w.same(w.at(r.channels(), c, i), ra.at(c, n - 1 - i)), "samples in reverse order")
    rr = reversed(r)
    w.require(rr.offset() == ra.o, "reversing twice restores the offset")
    w.forall(dims, lambda c, i: w.same(w.at(rr.channels(), c, i), ra.at(c, i)), "reversing twice restores the samples")
    ra.unchanged("reversed data")


def mirror(w):
    """the documentation: the reversed signal equals the original one for negative time values"""
    a, ra = build(w, "signal")
    w.require(reversed(a).offset() == 1 - ra.n - ra.o, "a sample at time t moves to time -t")


CASES = []
for kind in ("signal", "spectrogram"):
    for mode in ("OFFSET", "CROP", "PAD", "CYCLE"):
        CASES.append(Case(f"{kind} shift {mode}", shift(kind, mode), bounds="sizes 1..10^6, |shift| <= 3*10^6"))
    CASES.append(Case(f"{kind} shift CYCLE beyond", shift(kind, "CYCLE", True), bounds="sizes 1..10^6, length < |shift| < 2*length"))
    CASES.append(Case(f"{kind} shift None", shift_none(kind), bounds="sizes 1..10^6"))
for kind in ("signal", "spectrogram", "spectrum"):
    CASES.append(Case(f"{kind} pad", pad(kind), bounds="sizes 1..10^6, padded length 0..3*10^6"))
CASES.append(Case("signal reversed", reverse, bounds="sizes 1..10^6"))
CASES.append(Case("signal reversed mirrors time", mirror, bounds="sizes 1..10^6"))
