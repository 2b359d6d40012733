"""The Fourier transform and its inverse are the textbook transforms, including the signal's place on the time axis."""
from .common import *
from .reference import *

ASSUMPTIONS = REALS + DFT + ["1 to 2 channels, 0 to 9 samples (thorough: 14), offsets -4 to 4 (thorough: -9 to 9), 0 to 6 bins (thorough: 9); elements within [-1, 1], results compared with a tolerance of 1e-6"]


def forward(w):
    c = w.concrete(w.int("channels", 1, 2))
    n = w.concrete(w.int("length", 1, w.limit(9, 14)))
    o = w.concrete(w.int("offset", -w.limit(4, 9), w.limit(4, 9)))
    x = w.array("x", (c, n), lo=-1, hi=1)
    sr = w.choice("sampling_rate", (40000.0, 7.0))
    labels = labels_of("x", c)
    s = w.sumpf.Signal(channels=x, sampling_rate=sr, offset=o, labels=labels)
    ref = Ref(w, x, labels)
    X = s.fourier_transform()
    w.require(type(X).__name__ == "Spectrum", "a spectrum")
    same_shape(w, X.channels(), (c, n // 2 + 1), "spectrum")
    w.require(w.close(X.resolution(), sr / n), "resolution")
    w.require(X.labels() == labels, "labels")
    w.forall((c, n // 2 + 1), lambda i, k: w.close(w.at(X.channels(), i, k), dft(lambda j: ref.at(i, j), n, k, o)), "bin")
    ref.unchanged("transformed signal")


def inverse(w):
    c = w.concrete(w.int("channels", 1, 2))
    m = w.concrete(w.int("bins", 1, w.limit(6, 9)))
    x = w.array("x", (c, m), "c16", lo=-1, hi=1)
    resolution = w.choice("resolution", (1.0, 3.5))
    labels = labels_of("x", c)
    X = w.sumpf.Spectrum(channels=x, resolution=resolution, labels=labels)
    ref = Ref(w, x, labels)
    s = X.inverse_fourier_transform()
    n = max(1, 2 * (m - 1))
    w.require(type(s).__name__ == "Signal", "a signal")
    same_shape(w, s.channels(), (c, n), "signal")
    w.require(w.close(s.sampling_rate(), resolution * n), "sampling rate")
    w.require(s.offset() == 0, "offset")
    w.require(s.labels() == labels, "labels")
    w.forall((c, n), lambda i, j: w.close(w.at(s.channels(), i, j), idft(lambda k: ref.at(i, k), m, j)), "sample")
    ref.unchanged("transformed spectrum")


def round_trip(w):
    """an even number of samples survives; the offset turns into a rotation of the samples"""
    c = w.concrete(w.int("channels", 1, 2))
    n = 2 * w.concrete(w.int("half", 1, w.limit(4, 6)))
    o = w.concrete(w.int("offset", -w.limit(4, 9), w.limit(4, 9)))
    x = w.array("x", (c, n), lo=-1, hi=1)
    labels = labels_of("x", c)
    s = w.sumpf.Signal(channels=x, sampling_rate=40000.0, offset=o, labels=labels)
    ref = Ref(w, x, labels)
    r = s.fourier_transform().inverse_fourier_transform()
    same_shape(w, r.channels(), (c, n), "round trip")
    w.require(w.and_(w.close(r.sampling_rate(), 40000.0), r.offset() == 0), "axis")
    w.require(r.labels() == labels, "labels")
    w.forall((c, n), lambda i, j: w.close(w.at(r.channels(), i, j), ref.at(i, (j - o) % n)), "sample")


def back_and_forth(w):
    """spectrum, signal, spectrum: only the imaginary parts at 0 Hz and the highest frequency are lost"""
    c = w.concrete(w.int("channels", 1, 2))
    m = w.concrete(w.int("bins", 2, w.limit(5, 7)))
    x = w.array("x", (c, m), "c16", lo=-1, hi=1)
    X = w.sumpf.Spectrum(channels=x, resolution=2.0, labels=labels_of("x", c))
    ref = Ref(w, x, ())
    r = X.inverse_fourier_transform().fourier_transform()
    same_shape(w, r.channels(), (c, m), "round trip")
    w.require(w.close(r.resolution(), 2.0), "resolution")
    for i in range(c):
        for k in range(m):
            v = w.at(r.channels(), i, k)
            want = ref.at(i, k)
            w.require(w.close(v.real, want.real), f"real part of bin {k}")
            w.require(w.close(v.imag, 0.0 if k in (0, m - 1) else want.imag), f"imaginary part of bin {k}")


def empty(w):
    """data sets without channels or without samples"""
    c = w.concrete(w.int("channels", 0, 2))
    n = w.concrete(w.int("length", 0, 3))
    w.assume(c == 0 or n == 0)
    o = w.concrete(w.int("offset", -1, 1))
    s = w.sumpf.Signal(channels=w.np.empty(shape=(c, n)), sampling_rate=40000.0, offset=o)
    X = s.fourier_transform()
    same_shape(w, X.channels(), (c, n // 2 + 1), "spectrum")
    w.forall((c, n // 2 + 1), lambda i, k: w.close(w.at(X.channels(), i, k), 0.0), "nothing to transform")
    Y = w.sumpf.Spectrum(channels=w.np.empty(shape=(c, n), dtype=complex))
    same_shape(w, Y.inverse_fourier_transform().channels(), (c, 0 if n == 0 else max(1, 2 * (n - 1))), "signal")


CASES = [
    Case("forward", forward, backend="B", fallback=None, bounds="channels 1..2, length 1..9 (14), |offset| <= 4 (9)"),
    Case("inverse", inverse, backend="B", fallback=None, bounds="channels 1..2, bins 1..6 (9)"),
    Case("signal round trip", round_trip, backend="B", fallback=None, bounds="channels 1..2, even length 2..8 (12), |offset| <= 4 (9)"),
    Case("spectrum round trip", back_and_forth, backend="B", fallback=None, bounds="channels 1..2, bins 2..5 (7)"),
    Case("empty", empty, backend="B", fallback=None, bounds="0 channels or 0 samples"),
]
