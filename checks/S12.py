"""Statistical values of signals and spectrums."""
from . import scipystats
from .common import *
from .reference import *

ASSUMPTIONS = REALS + DFT + ["square roots are known by their sign and their square", "skewness and kurtosis: scipy.stats follows its documented definition",
                             "1 to 3 channels, 1 to 6 samples, 1 to 6 bins"]
OPT = {"shims": {"scipy.stats": scipystats.module}}


def build(w, nmax=6, nmin=1):
    c = w.concrete(w.int("channels", 1, 3))
    n = w.concrete(w.int("length", nmin, nmax))
    x = w.array("x", (c, n), lo=-1, hi=1)
    o = w.int("offset", -100, 100)
    s = w.sumpf.Signal(channels=x, sampling_rate=40000.0, offset=o, labels=labels_of("x", c))
    return s, Ref(w, x, (), c=c, n=n)


def rows(ref):
    """the samples of each channel, and all samples"""
    each = [[ref.at(c, i) for i in range(ref.n)] for c in range(ref.c)]
    return each, [v for row in each for v in row]


def total(values):
    s = 0.0
    for v in values:
        s = s + v
    return s


def is_root(w, value, square, label):
    w.require(value >= 0, label + " is not negative")
    w.require(w.close(value * value, square), label)


def single(w, r, label):
    """the result is one number"""
    w.require(not hasattr(r, "shape") or r.shape == (), label + " is one number")
    return r


def moments(w):
    s, ref = build(w)
    each, flat = rows(ref)
    mean = s.mean()
    w.require(len(mean) == ref.c, "one mean per channel")
    var = s.variance()
    w.require(len(var) == ref.c, "one variance per channel")
    std = s.standard_deviation()
    w.require(len(std) == ref.c, "one standard deviation per channel")
    level = s.level()
    w.require(len(level) == ref.c, "one level per channel")
    for c in range(ref.c):
        check_moments(w, each[c], mean[c], var[c], std[c], level[c], f"channel {c}")
    check_moments(w, flat, single(w, s.mean(True), "mean"), single(w, s.variance(True), "variance"),
                  single(w, s.standard_deviation(True), "standard deviation"), single(w, s.level(True), "level"), "all channels")
    ref.unchanged("signal")


def check_moments(w, values, mean, var, std, level, label):
    n = len(values)
    m = total(values) * (1.0 / n)
    v = total([(x - m) * (x - m) for x in values]) * (1.0 / n)
    w.require(w.close(mean, m), f"mean of {label}")
    w.require(w.close(var, v), f"variance of {label}")
    is_root(w, std, v, f"standard deviation of {label}")
    is_root(w, level, total([x * x for x in values]) * (1.0 / n), f"level of {label}")


def higher(w):
    s, ref = build(w, nmax=4, nmin=2)
    each, flat = rows(ref)
    for name, f in (("skewness", scipystats.skew_of), ("kurtosis", scipystats.kurtosis_of)):
        r = getattr(s, name)()
        w.require(len(r) == ref.c, f"one {name} per channel")
        for c in range(ref.c):
            w.require(w.same(r[c], f(w, each[c])), f"{name} of channel {c}")
        w.require(w.same(single(w, getattr(s, name)(True), name), f(w, flat)), f"{name} of all channels")


def spectrum_level(w):
    """the level of a spectrum is the level of its signal"""
    c = w.concrete(w.int("channels", 1, 3))
    m = w.concrete(w.int("bins", 1, 6))
    x = w.array("x", (c, m), "c16", lo=-1, hi=1)
    s = w.sumpf.Spectrum(channels=x, resolution=2.0, labels=labels_of("x", c))
    ref = Ref(w, x, ())
    n = max(1, 2 * (m - 1))

    def energy(i):
        v = 0.0
        for k in range(m):
            e = ref.at(i, k)
            p = e.real * e.real + e.imag * e.imag
            v = v + (p if k in (0, m - 1) else p * 2)
        return v * (1.0 / n ** 2)
    level = s.level()
    w.require(len(level) == c, "one level per channel")
    for i in range(c):
        is_root(w, level[i], energy(i), f"level of channel {i}")
    is_root(w, single(w, s.level(single_value=True), "level"), total([energy(i) for i in range(c)]) * (1.0 / c), "level of all channels")
    ref.unchanged("spectrum")


def parseval(w):
    """the level does not change with the transform"""
    c = w.concrete(w.int("channels", 1, 2))
    n = 2 * w.concrete(w.int("half", 1, 3))
    x = w.array("x", (c, n), lo=-1, hi=1)
    s = w.sumpf.Signal(channels=x, sampling_rate=40000.0, offset=w.choice("offset", (0, 3, -1)), labels=labels_of("x", c))
    a, b = s.level(), s.fourier_transform().level()
    for i in range(c):
        w.require(w.close(a[i] * a[i], b[i] * b[i]), f"level of channel {i}")


def many(w):
    """more channels"""
    c = w.concrete(w.int("channels", 4, w.limit(7, 9)))
    n = w.concrete(w.int("length", 1, 2))
    x = w.array("x", (c, n), lo=-1, hi=1)
    s = w.sumpf.Signal(channels=x, sampling_rate=40000.0, labels=labels_of("x", c))
    ref = Ref(w, x, (), c=c, n=n)
    each, flat = rows(ref)
    mean, var, std, level = s.mean(), s.variance(), s.standard_deviation(), s.level()
    for i in range(c):
        check_moments(w, each[i], mean[i], var[i], std[i], level[i], f"channel {i}")
    check_moments(w, flat, s.mean(True), s.variance(True), s.standard_deviation(True), s.level(True), "all channels")
    y = w.array("y", (c, n), "c16", lo=-1, hi=1)
    s = w.sumpf.Spectrum(channels=y, resolution=2.0, labels=labels_of("y", c))
    ref = Ref(w, y, ())
    energy = [total([abs2(ref.at(i, k)) for k in range(n)]) * (1.0 / (1 if n == 1 else 4)) for i in range(c)]
    level = s.level()
    w.require(len(level) == c, "one level per channel")
    for i in range(c):
        is_root(w, level[i], energy[i], f"level of channel {i} of the spectrum")
    is_root(w, single(w, s.level(single_value=True), "level"), total(energy) * (1.0 / c), "level of the spectrum")


def abs2(v):
    return v.real * v.real + v.imag * v.imag


CASES = [Case("many channels", many, backend="B", fallback=None, bounds="channels 4..7 (9), length 1..2"),
         Case("moments", moments, backend="B", fallback=None, bounds="channels 1..3, length 1..6"),
         Case("skewness and kurtosis", higher, backend="B", fallback=None, options=OPT, bounds="channels 1..3, length 2..4"),
         Case("spectrum level", spectrum_level, backend="B", fallback=None, bounds="channels 1..3, bins 1..6"),
         Case("level and transform", parseval, backend="B", fallback=None, bounds="channels 1..2, length 2, 4, 6")]
