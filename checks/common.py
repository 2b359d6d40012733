"""Builders and reference definitions shared by the harnesses."""
import operator

import numpy

from engine.runner import Case
from engine.symarray import SymArray

BIG = 10 ** 6
REALS = ["element values are real (or pairs of real) numbers: rounding, overflow, infinities and NaN of IEEE floats are outside"]
UFS = ["products, quotients, powers and modulo of two unknowns are uninterpreted apart from congruence, commutativity and linear factors"]
MODEL = ["numpy's slicing, broadcasting, ufunc and casting rules as modelled in engine/symarray.py, engine/npsym.py and engine/npobj.py (sampled against the real numpy by the witness runs of every path)"]

OPS = {
    "add": (operator.add, None, "Sum"),
    "sub": (operator.sub, 0.0, "Difference"),
    "mul": (operator.mul, None, "Product"),
    "div": (operator.truediv, 1.0, "Quotient"),
    "pow": (operator.pow, None, "Power"),
    "mod": (operator.mod, None, "Modulo"),
}


class Ref:
    """an input data set together with an independent record of its contents"""

    def __init__(self, w, data, labels, **attrs):
        self.w = w
        self.data = data
        self.labels = labels
        self.__dict__.update(attrs)
        if isinstance(data, SymArray):
            snap = data.snapshot()
            self.at = lambda *idx: snap(tuple(idx))
        else:
            keep = data.copy()
            self.copy = keep
            self.at = lambda *idx: keep[tuple(idx)] if all(0 <= i < n for i, n in zip(idx, keep.shape)) else 0.0

    def unchanged(self, label):
        """the data set's own array still has its original contents"""
        w = self.w
        w.forall(w.shape(self.data), lambda *idx: w.same(w.at(self.data, *idx), self.at(*idx)), label)


def labels_of(name, c):
    return tuple(f"{name}{i}" for i in range(c))


def signal(w, name, cmin=1, cmax=3, nmin=1, nmax=BIG, omax=BIG, sr=40000.0, dtype="f8", small_n=3, small_o=3, channels=None, length=None, offset=None,
           lo=None, hi=None):
    c = w.concrete(w.int(name + "_channels", cmin, cmax, (cmin, min(cmax, 3)))) if channels is None else channels
    n = w.int(name + "_length", nmin, nmax, (nmin, small_n)) if length is None else length
    o = w.int(name + "_offset", -omax, omax, (-small_o, small_o)) if offset is None else offset
    data = w.array(name, (c, n), dtype, lo=lo, hi=hi)
    labels = labels_of(name, c)
    s = w.sumpf.Signal(channels=data, sampling_rate=sr, offset=o, labels=labels)
    return s, Ref(w, data, labels, c=c, n=n, o=o, sr=sr)


def spectrum(w, name, cmin=1, cmax=3, nmin=1, nmax=BIG, resolution=2.5, small_n=3, channels=None, length=None):
    c = w.concrete(w.int(name + "_channels", cmin, cmax, (cmin, min(cmax, 3)))) if channels is None else channels
    n = w.int(name + "_length", nmin, nmax, (nmin, small_n)) if length is None else length
    data = w.array(name, (c, n), "c16")
    labels = labels_of(name, c)
    s = w.sumpf.Spectrum(channels=data, resolution=resolution, labels=labels)
    return s, Ref(w, data, labels, c=c, n=n, resolution=resolution)


def spectrogram(w, name, cmin=1, cmax=3, nmin=1, nmax=BIG, omax=BIG, fmin=1, fmax=BIG, resolution=2.5, sr=100.0, small_n=3, small_o=3, small_f=2,
                channels=None, length=None, offset=None, frequencies=None):
    c = w.concrete(w.int(name + "_channels", cmin, cmax, (cmin, min(cmax, 3)))) if channels is None else channels
    f = w.int(name + "_frequencies", fmin, fmax, (fmin, small_f)) if frequencies is None else frequencies
    n = w.int(name + "_length", nmin, nmax, (nmin, small_n)) if length is None else length
    o = w.int(name + "_offset", -omax, omax, (-small_o, small_o)) if offset is None else offset
    data = w.array(name, (c, f, n), "c16")
    labels = labels_of(name, c)
    s = w.sumpf.Spectrogram(channels=data, resolution=resolution, sampling_rate=sr, offset=o, labels=labels)
    return s, Ref(w, data, labels, c=c, n=n, f=f, o=o, sr=sr, resolution=resolution)


def same_shape(w, got, want, label):
    got = w.shape(got)
    w.require(len(got) == len(want), f"{label}: number of axes")
    for k, (g, e) in enumerate(zip(got, want)):
        w.require(g == e, f"{label}: size of axis {k}")


def lazy_and(*xs):
    return all(xs)
