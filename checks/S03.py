"""Slicing keeps every sample at its position on the time axis."""
from .common import *

ASSUMPTIONS = MODEL + ["1 to 3 channels, sizes 0 to 10^6, integer bounds -2*10^6 to 2*10^6 on either side or absent, steps 1 and 2; a float index is a concrete member of a list"]
LIM = 2 * BIG


def bound(w, name, small):
    """an integer or None"""
    return w.int(name, -LIM, LIM, (-small, small)) if w.bool(name + "_given") else None


def clip(w, b, n, default):
    """python's rule for one bound of a slice with positive step"""
    if b is None:
        return default
    b = w.ite(b < 0, b + n, b)
    return w.max(0, w.min(b, n))


def sliced(w, name, n, small=4):
    start = bound(w, name + "_start", small)
    stop = bound(w, name + "_stop", small)
    lo = clip(w, start, n, 0)
    hi = clip(w, stop, n, n)
    return slice(start, stop), lo, w.max(0, hi - lo)


def samples(kind):
    """slices on the last axis, together with a full slice on the others"""
    def h(w):
        a, ra = signal(w, "a", nmin=0, cmax=2) if kind == "signal" else spectrum(w, "a", nmin=0, cmax=2) if kind == "spectrum" else \
            spectrogram(w, "a", nmin=0, cmax=2)
        key, lo, length = sliced(w, "s", ra.n)
        full = (slice(None),) * (len(w.shape(ra.data)) - 1)
        r = a[full + (key,)]
        dims = w.shape(ra.data)[:-1] + (length,)
        same_shape(w, r.channels(), dims, "slice")
        w.require(r.labels() == ra.labels, "labels kept")
        w.forall(dims, lambda *i: w.same(w.at(r.channels(), *i), ra.at(*i[:-1], i[-1] + lo)), "selected samples")
        if kind != "spectrum":
            w.require(r.sampling_rate() == ra.sr, "sampling rate kept")
            w.require(w.implies(length > 0, lambda: r.offset() == ra.o + lo), "a sample's time stays the same")
        if kind != "signal":
            w.require(r.resolution() == ra.resolution, "resolution kept")
    return h


def sample(kind):
    """one integer index on the last axis"""
    def h(w):
        a, ra = signal(w, "a", cmax=2) if kind == "signal" else spectrum(w, "a", cmax=2) if kind == "spectrum" else spectrogram(w, "a", cmax=2)
        i = w.int("index", -BIG, BIG, (-3, 3))
        w.assume(w.and_(i >= -ra.n, i < ra.n))
        full = (slice(None),) * (len(w.shape(ra.data)) - 1)
        r = a[full + (i,)]
        pos = w.ite(i < 0, i + ra.n, i)
        dims = w.shape(ra.data)[:-1] + (1,)
        same_shape(w, r.channels(), dims, "single position")
        w.forall(dims, lambda *k: w.same(w.at(r.channels(), *k), ra.at(*k[:-1], pos)), "selected position")
        if kind != "spectrum":
            w.require(r.offset() == ra.o + pos, "the sample's time stays the same")
    return h


def channels(kind):
    """integer indices and slices on the channel axis"""
    def h(w):
        a, ra = signal(w, "a", cmax=3) if kind == "signal" else spectrum(w, "a", cmax=3) if kind == "spectrum" else spectrogram(w, "a", cmax=3)
        if w.bool("integer"):
            i = w.concrete(w.int("index", -3, 2))
            w.assume(w.and_(i >= -ra.c, i < ra.c))
            r = a[i]
            picked = [range(ra.c)[i]]
        else:
            start = w.choice("start", (None, -4, -2, -1, 0, 1, 2, 3))
            stop = w.choice("stop", (None, -4, -1, 0, 1, 2, 3, 5))
            step = w.choice("step", (None, 1, 2, -1))
            r = a[start:stop:step]
            picked = list(range(ra.c))[start:stop:step]
        dims = (len(picked),) + w.shape(ra.data)[1:]
        same_shape(w, r.channels(), dims, "channels")
        w.require(r.labels() == tuple(ra.labels[p] for p in picked), "labels move with their channels")
        if kind != "spectrum":
            w.require(r.offset() == ra.o, "offset kept")
            w.require(r.sampling_rate() == ra.sr, "sampling rate kept")
        if kind != "signal":
            w.require(r.resolution() == ra.resolution, "resolution kept")
        for c, p in enumerate(picked):
            w.forall(dims[1:], lambda *i: w.same(w.at(r.channels(), c, *i), ra.at(p, *i)), "picked channel")
    return h


def floats(w):
    """float bounds are fractions of the axis"""
    a, ra = signal(w, "a", cmax=2, nmin=1, nmax=40)
    start = w.choice("start", (0.0, 0.25, 0.5, -0.5, -0.25, -1.0, 1.0))
    stop = w.choice("stop", (0.5, 1.0, -0.25, 0.75))
    r = a[:, start:stop]
    n = ra.n

    def position(f):
        k = w.np.round(f * n) if False else round_half_even(w, f, n)
        return w.ite(k < 0, k + n, k)
    lo = w.max(0, w.min(position(start), n))
    hi = w.max(0, w.min(position(stop), n))
    length = w.max(0, hi - lo)
    same_shape(w, r.channels(), (ra.c, length), "fraction slice")
    w.forall((ra.c, length), lambda c, i: w.same(w.at(r.channels(), c, i), ra.at(c, i + lo)), "selected samples")
    w.require(w.implies(length > 0, lambda: r.offset() == ra.o + lo), "a sample's time stays the same")


def round_half_even(w, f, n):
    """nearest integer to f*n for quarters f"""
    q = int(f * 4)
    x = q * n                           # in quarters
    k = x // 4
    r = x - 4 * k
    return w.ite(r < 2, k, w.ite(r > 2, k + 1, w.ite(k % 2 == 0, k, k + 1)))


CASES = []
for kind in ("signal", "spectrum", "spectrogram"):
    CASES.append(Case(f"{kind} samples", samples(kind), bounds="channels 1..2, sizes 0..10^6, |bounds| <= 2*10^6 or absent"))
    CASES.append(Case(f"{kind} sample", sample(kind), bounds="channels 1..2, sizes 1..10^6, every index of the axis"))
    CASES.append(Case(f"{kind} channels", channels(kind), bounds="channels 1..3, lists of bounds"))
CASES.append(Case("signal fractions", floats, bounds="length 1..40, quarters"))
