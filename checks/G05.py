"""The figures of merit of windows follow their definitions."""
import collections.abc
import math

from .common import *
from .reference import cplx

ASSUMPTIONS = REALS + MODEL + [
    "the window's samples are arbitrary numbers between -2 and 2, 1 to 5 of them; quotients are computed where their denominator is not close to zero"]
OPT = {"core": {"nra": True}, "timeout_ms": 5000}


def build(w, nmax, nmin=1, lo=-2, hi=2):
    """a window signal with arbitrary samples"""
    n = w.concrete(w.int("length", nmin, nmax))
    x = w.array("x", (n,), lo=lo, hi=hi)
    Window = w.module("sumpf._data._signals._windows").Window

    class Arbitrary(Window):
        def _function(self, length):
            w.require(length == n, "length of the function")
            return x

        def _label(self):
            return "Arbitrary"
    s = Arbitrary(plateau=0, sampling_rate=64.0, length=n, symmetric=True)
    keep = [x[i] for i in range(n)]
    return s, keep, n


def overlapping(w, n, lo=0):
    """an overlap and the ways in which it can be given"""
    o = w.concrete(w.int("overlap", lo, n))
    how = w.choice("notation", ("plain", "negative", "float", "negative float", "array"))
    if how == "plain":
        return o, o, how
    if how == "negative":
        w.assume(o < n)
        return o, o - n, how
    if how == "float":
        return o, o / n, how
    if how == "negative float":
        w.assume(o < n)
        return o, (o - n) / n, how
    other = w.choice("other overlap", (0, n - 1))
    return o, numpy.array([o, other]) if w.choice("type", ("integers", "factors")) == "integers" else [o / n, other / n], how


def results(w, method, o, given, how, n):
    """pairs of overlaps and results"""
    r = method(given)
    if how != "array":
        w.require(not isinstance(r, collections.abc.Iterable) or numpy.shape(r) == (), "scalar result")
        return [(o, r)]
    w.require(numpy.shape(r) == (2,), "array of results")
    other = int(given[1]) if isinstance(given, numpy.ndarray) else round(given[1] * n)
    return [(o, r[0]), (other, r[1])]


def total(values):
    r = 0.0
    for v in values:
        r = r + v
    return r


def overlapped(x, n, o):
    """the sum of all shifted repetitions at each sample of the window"""
    step = n - o
    return [total(x[i + k * step] for k in range(-n, n + 1) if 0 <= i + k * step < n) for i in range(n)]


def is_ratio(w, r, numerator, denominator, label):
    w.require(w.close(r, numerator / denominator), label)


def not_small(w, x):
    w.assume(w.or_(x > 0.125, x < -0.125))


def extreme(w, values, which):
    r = values[0]
    for v in values[1:]:
        r = which(r, v)
    return r


def scaling(w):
    s, x, n = build(w, 5)
    o, given, how = overlapping(w, n)
    sums = {}
    for k in range(n):
        sums[k] = total(overlapped(x, n, k))
        not_small(w, sums[k])
    for k, r in results(w, s.scaling_factor, o, given, how, n):
        if k == n:
            w.require(r == 0.0, "scaling factor without a step")
        else:
            is_ratio(w, r, n, sums[k], "scaling factor")


def flatness(name, power):
    def h(w):
        s, x, n = build(w, w.limit(4, 5), lo=0 if power else -2)
        y = [v * v for v in x] if power else x
        o, given, how = overlapping(w, n)
        low, high = {}, {}
        for k in range(n):
            values = overlapped(y, n, k)
            low[k], high[k] = extreme(w, values, w.min), extreme(w, values, w.max)
            not_small(w, high[k])
        for k, r in results(w, getattr(s, name), o, given, how, n):
            if k == n:
                w.require(r == 1.0, "flatness of a complete overlap")
            else:
                is_ratio(w, r, low[k], high[k], "flatness")
    return h


def correlation(w):
    s, x, n = build(w, 5)
    o, given, how = overlapping(w, n)
    energy = total(v * v for v in x)
    if w.choice("silent", (False, True)):
        for v in x:
            w.assume(v == 0.0)
        for k, r in results(w, s.overlap_correlation, o, given, how, n):
            w.require(r == 1.0, "correlation of silence")
        return
    w.assume(energy > 0.125)
    for k, r in results(w, s.overlap_correlation, o, given, how, n):
        is_ratio(w, r, total(x[i] * x[i + n - k] for i in range(k)), energy, "overlap correlation")


def constant(x):
    """the encoding of the Fourier transform has constants of this accuracy, so that equal terms cancel"""
    return round(x * 2 ** 44) / 2 ** 44


def scalloping(w):
    s, x, n = build(w, 6)
    re0 = total(x)
    not_small(w, re0)
    # this transform's bin between zero and the first one
    re = total(x[i] * constant(math.cos(math.pi * i / n)) for i in range(n))
    im = total(x[i] * constant(-math.sin(math.pi * i / n)) for i in range(n))
    r = s.scalloping_loss()
    w.require(r >= 0, "scalloping loss is not negative")
    a, b = re / re0, im / re0
    w.require(w.close(r * r, a * a + b * b), "scalloping loss")


def bandwidth(w):
    s, x, n = build(w, w.limit(3, 4), nmin=2)
    factor = w.choice("oversampling", (2, 3, 1))
    m = n * factor
    magnitude = []
    for k in range(m // 2 + 1):
        re = total(x[i] * constant(math.cos(2.0 * math.pi * k * i / m)) for i in range(n))
        im = total(x[i] * constant(-math.sin(2.0 * math.pi * k * i / m)) for i in range(n))
        magnitude.append(abs(cplx(re, im)))
    threshold = magnitude[0] / math.sqrt(2.0)
    w.assume(magnitude[0] > 0.25)
    first = None
    for k in range(1, len(magnitude)):
        if bool(magnitude[k] < threshold):
            first = k
            break
    w.assume(first is not None)
    step = magnitude[first - 1] - magnitude[first]
    w.assume(step > 0.125)
    w.assume(w.or_(magnitude[first] < threshold - 1e-6, magnitude[first] > threshold + 1e-6))
    want = first - 1 + (magnitude[first - 1] - threshold) / step
    r = s.bandwidth(factor)
    w.require(w.close(r, want * (2.0 * 64.0 / m)), "bandwidth")


def recommended(w):
    n0 = w.limit(3, 3)
    s, x, n = build(w, n0, lo=0)
    energy = total(v * v for v in x)
    w.assume(energy > 0.125)
    value = []
    for k in range(n):
        values = overlapped(x, n, k)
        high = extreme(w, values, w.max)
        not_small(w, high)
        value.append(extreme(w, values, w.min) / high - total(x[i] * x[i + n - k] for i in range(k)) / energy)
    r = s.recommended_overlap()
    w.require(w.and_(r >= 0, r < n), "recommended overlap is one")
    r = int(r)
    for k in range(n):
        w.require(value[r] >= value[k] - 1e-9, "recommended overlap maximizes")
        if k < r:
            w.require(value[r] > value[k] - 1e-9, "smallest recommended overlap")


CASES = [Case("scaling factor", scaling, backend="B", fallback=None, options=OPT, bounds="up to 5 samples", time_s=200),
         Case("amplitude flatness", flatness("amplitude_flatness", False), backend="B", fallback=None, options=OPT, bounds="up to 4 (5) samples", time_s=200, max_paths=20000),
         Case("power flatness", flatness("power_flatness", True), backend="B", fallback=None, options=OPT, bounds="up to 4 (5) samples", time_s=200, max_paths=20000),
         Case("overlap correlation", correlation, backend="B", fallback=None, options=OPT, bounds="up to 5 samples", time_s=200),
         Case("scalloping loss", scalloping, backend="B", fallback=None, options=OPT, bounds="up to 6 samples", time_s=200),
         Case("bandwidth", bandwidth, backend="B", fallback=None, options=OPT, bounds="2 to 3 (4) samples, 1 to 3 times as many", time_s=200),
         Case("recommended overlap", recommended, backend="B", fallback=None, options=OPT, bounds="up to 3 samples", time_s=200)]
