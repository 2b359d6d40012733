"""The axes, parts and labels of data sets."""
from .common import *

ASSUMPTIONS = REALS + MODEL + ["1 to 2 channels, sizes 1 to 10^6 (magnitude, phase, ...: 1 to 4), offsets -10^6 to 10^6, sampling rates and resolutions from a list; magnitude and phase are uninterpreted functions of real and imaginary part"]
RATES = (48000.0, 8.0, 0.5)


def sized(w, name="n"):
    """a size, counted from the last index, so that divisions by the number of intervals are exact"""
    return w.int(name + "_last", 0, BIG, (0, 3)) + 1


def times(w, s, ref, sr, o, n):
    t = s.time_samples()
    same_shape(w, t, (n,), "time samples")
    w.forall((n,), lambda i: near(w, w.at(t, i), (o + i) * (1.0 / sr)), "the time of a sample")
    w.require(near(w, s.duration(), n * (1.0 / sr)), "duration")


def near(w, a, b):
    return w.close(a, b, 1e-6)


def time_axis(w):
    n = sized(w)
    sr = w.choice("sampling_rate", RATES)
    s, ref = signal(w, "a", cmax=2, length=n, sr=sr)
    times(w, s, ref, sr, ref.o, n)
    w.require(s.length() == n, "length")
    w.require(len(s) == ref.c, "number of channels")
    same_shape(w, s.channels(), (ref.c, n), "channels")
    w.require(w.and_(s.shape()[0] == ref.c, s.shape()[1] == n), "shape")
    w.require(w.and_(s.sampling_rate() == sr, s.offset() == ref.o), "parameters")
    ref.unchanged("samples")
    w.forall((ref.c, n), lambda c, i: w.same(w.at(s.channels(), c, i), ref.at(c, i)), "samples")


def frequency_axis(w):
    n = sized(w)
    resolution = w.choice("resolution", RATES)
    s, ref = spectrum(w, "a", cmax=2, length=n, resolution=resolution)
    f = s.frequency_samples()
    same_shape(w, f, (n,), "frequency samples")
    w.forall((n,), lambda i: near(w, w.at(f, i), i * resolution), "the frequency of a bin")
    w.require(near(w, s.maximum_frequency(), (n - 1) * resolution), "maximum frequency")
    w.require(s.resolution() == resolution, "resolution")
    w.require(w.and_(s.length() == n, len(s) == ref.c), "sizes")


def spectrum_parts(w):
    s, ref = spectrum(w, "a", cmax=2, length=w.int("n", 1, 4))
    parts(w, s, ref, (ref.c, ref.n))


def spectrogram_parts(w):
    s, ref = spectrogram(w, "a", cmax=2, length=w.int("n", 1, 3), frequencies=w.int("f", 1, 3), offset=w.int("o", -5, 5))
    parts(w, s, ref, (ref.c, ref.f, ref.n))
    c = s.conjugate()
    w.require(w.and_(c.sampling_rate() == ref.sr, c.offset() == ref.o), "time axis of the conjugate")


def parts(w, s, ref, dims):
    for name, f in (("magnitude", lambda v: abs(v)), ("real", lambda v: v.real), ("imaginary", lambda v: v.imag)):
        r = getattr(s, name)()
        same_shape(w, r, dims, name)
        w.forall(dims, lambda *i: w.same(w.at(r, *i), part(w, name, ref.at(*i))), name)
    p = s.phase()
    same_shape(w, p, dims, "phase")
    w.forall(dims, lambda *i: w.same(w.at(p, *i), part(w, "phase", ref.at(*i))), "phase")
    c = s.conjugate()
    w.require(type(c) is type(s), "conjugate is of the same type")
    w.require(c.labels() == ref.labels, "labels of the conjugate")
    w.require(c.resolution() == s.resolution(), "resolution of the conjugate")
    same_shape(w, c.channels(), dims, "conjugate")
    w.forall(dims, lambda *i: w.same(w.at(c.channels(), *i), part(w, "conjugate", ref.at(*i))), "conjugate")
    ref.unchanged("data")


def part(w, name, v):
    f = {"magnitude": "absolute", "real": "real", "imaginary": "imag", "phase": "angle", "conjugate": "conjugate"}[name]
    if name == "magnitude":
        return abs(v)
    return getattr(w.np, f)(v)


def spectrogram_axes(w):
    n = sized(w)
    f = sized(w, "f")
    sr = w.choice("sampling_rate", RATES[:2])
    resolution = w.choice("resolution", RATES[1:])
    s, ref = spectrogram(w, "a", cmax=2, length=n, frequencies=f, sr=sr, resolution=resolution)
    times(w, s, ref, sr, ref.o, n)
    fs = s.frequency_samples()
    same_shape(w, fs, (f,), "frequency samples")
    w.forall((f,), lambda i: near(w, w.at(fs, i), i * resolution), "the frequency of a bin")
    w.require(near(w, s.maximum_frequency(), (f - 1) * resolution), "maximum frequency")
    w.require(w.and_(s.number_of_frequencies() == f, s.length() == n, len(s) == ref.c), "sizes")
    w.require(w.and_(s.sampling_rate() == sr, s.offset() == ref.o, s.resolution() == resolution), "parameters")


def labels(w):
    """missing labels become empty, superfluous ones are dropped"""
    c = w.choice("channels", (1, 2, 3))
    given = w.choice("labels", (None, (), ("a",), ("a", "b"), ["a", "b"], ("a", "b", "c"), ("a", "b", "c", "d", "e")))
    n = w.int("length", 1, BIG, (1, 2))
    kind = w.choice("kind", ("Signal", "Spectrum", "Spectrogram"))
    data = w.array("a", (c, n) if kind != "Spectrogram" else (c, 2, n), "f8" if kind == "Signal" else "c16")
    s = getattr(w.sumpf, kind)(channels=data, labels=given)
    want = tuple(given or ())[0:c]
    got = s.labels()
    w.require(got == want + ("",) * (c - len(want)), "one label per channel")
    w.require(isinstance(got, tuple), "labels are a tuple")


CASES = [Case("signal", time_axis, bounds="sizes 1..10^6"), Case("spectrum", frequency_axis, bounds="sizes 1..10^6"),
         Case("spectrogram", spectrogram_axes, bounds="sizes 1..10^6"),
         Case("parts of a spectrum", spectrum_parts, backend="B", fallback=None, bounds="1 to 2 channels, 1 to 4 bins"),
         Case("parts of a spectrogram", spectrogram_parts, backend="B", fallback=None, bounds="1 to 2 channels, 1 to 3 frequencies and times"),
         Case("labels", labels, bounds="1 to 3 channels, 0 to 5 labels")]
