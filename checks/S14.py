"""Two data sets are equal exactly if their type, axes, samples and labels are, and equal ones have equal hashes."""
from .common import *
from .hashing import OPT, hash_of

ASSUMPTIONS = REALS + ["hash values are compared through the values that they are computed from; 1 to 2 channels, 0 to 2 samples and frequencies"]


def build(w, kind, name, near=None):
    """a data set, or one that may differ from the given one in any respect"""
    c = w.concrete(w.int(name + "_channels", 1, 2))
    n = w.concrete(w.int(name + "_length", 0, 2))
    labels = w.choice(name + "_labels", (("x", "y"), ("x", "z"), ("x", "")))[0:c]
    dims = (c, n)
    extra = {}
    if kind == "Spectrogram":
        f = w.concrete(w.int(name + "_frequencies", 1, 2))
        dims = (c, f, n)
        w.assume(c * f * n <= 2)
    if near is not None:
        # shapes that differ are all alike
        w.assume(dims == near[2] or (c == 1 and n == 1) or near[2] == (1, 2))
    data = w.array(name, dims, "f8" if kind == "Signal" else "c16", lo=-1, hi=1)
    if kind != "Spectrum":
        extra["sampling_rate"] = w.real(name + "_rate", 1, 100)
        extra["offset"] = w.int(name + "_offset", -5, 5)
    if kind != "Signal":
        extra["resolution"] = w.real(name + "_resolution", 1, 100)
    ref = Ref(w, data, labels)
    return getattr(w.sumpf, kind)(channels=data, labels=labels, **extra), ref, dims, extra, labels


def pair(kind):
    def h(w):
        a, ra, da, ea, la = build(w, kind, "a")
        b, rb, db, eb, lb = build(w, kind, "b", (None, None, da))
        same = da == db and la == lb
        if same:
            same = w.and_(*[ea[k] == eb[k] for k in ea])
            import numpy
            for i in numpy.ndindex(*da):
                same = w.and_(same, w.same(ra.at(*i), rb.at(*i)) if w.symbolic else ra.at(*i) == rb.at(*i))
        got = a == b
        w.require(got == same if not w.symbolic else w.and_(w.implies(got, same), w.implies(same, got)), "equal exactly if everything is equal")
        w.require(w.not_(a != b) == got if not w.symbolic else w.and_(w.or_(got, a != b), w.not_(w.and_(got, a != b))), "different exactly if not equal")
        if bool(got):
            w.require(hash_of(w, a) == hash_of(w, b), "equal data sets have equal hashes")
    return h


def copies(kind):
    """a data set that is built from the same values is equal"""
    def h(w):
        a, ra, da, ea, la = build(w, kind, "a")
        import numpy
        b = getattr(w.sumpf, kind)(channels=w.np.array(a.channels()), labels=list(la), **ea)
        w.require(a == b, "equal")
        w.require(w.not_(a != b), "not different")
        w.require(hash_of(w, a) == hash_of(w, b), "equal hashes")
        w.require(a == a, "equal to itself")
        for other in (None, 1.0, "x", (1, 2), ra.labels):
            w.require(w.not_(a == other), "not equal to something else")
            w.require(a != other, "different from something else")
    return h


def kinds(w):
    """data sets of different types are never equal"""
    n = w.concrete(w.int("length", 0, 2))
    data = w.array("x", (1, n), lo=-1, hi=1)
    three = w.array("y", (1, 1, n), "c16", lo=-1, hi=1)
    a = w.sumpf.Signal(channels=data, sampling_rate=1.0)
    b = w.sumpf.Spectrum(channels=data, resolution=1.0)
    c = w.sumpf.Spectrogram(channels=three, resolution=1.0, sampling_rate=1.0)
    for x, y in ((a, b), (b, a), (a, c), (c, a), (b, c), (c, b)):
        w.require(w.not_(x == y), "not equal")
        w.require(x != y, "different")


CASES = [Case("kinds", kinds, backend="B", fallback=None, bounds="length 0..2")]
for kind in ("Signal", "Spectrum", "Spectrogram"):
    CASES.append(Case(f"{kind} pairs", pair(kind), backend="B", fallback=None, options=OPT, witnesses=60, bounds="channels 1..2, sizes 0..2"))
    CASES.append(Case(f"{kind} copies", copies(kind), backend="B", fallback=None, options=OPT, bounds="channels 1..2, sizes 0..2"))
