"""The block-wise Fourier transform is the scaled sum of the transforms of all windowed blocks at their places in time."""
from .common import *
from .reference import *

ASSUMPTIONS = REALS + DFT + ["1 to 2 channels, 1 to 9 samples (thorough: 12), windows of 1 to 6 samples from a list, every overlap below the window length, offsets from a list; tolerance 1e-6"]

WINDOWS = ([1.0], [1.0, 1.0], [0.25, 1.0], [0.5, 1.0, 0.5], [0.0, 0.5, 1.0, 0.5], [0.75, 1.0, 0.5, 0.125, 0.0625], [1.0, 0.5, 0.25, 1.0, 0.75, 0.5])


def blocks(n, size, overlap, pad):
    """the positions of all blocks"""
    step = size - overlap
    if pad:
        return [i for i in range(-size * step, n, step) if i > -size]
    return [i for i in range(0, n, step) if i + size <= n]


def value(x, n, window, overlap, pad, offset, k):
    size = len(window)
    step = size - overlap
    overlay = 0.0
    for shift in range(-size * step, size * step + 1, step):
        overlay += sum(window[j - shift] for j in range(size) if 0 <= j - shift < size)
    re, im = 0.0, 0.0
    for i in blocks(n, size, overlap, pad):
        for j in range(size):
            if 0 <= i + j < n and window[j]:
                r = rot(k * (i + j + offset) / size)
                v = x(i + j) * (window[j] * size / overlay)
                re = re + v * r.real
                im = im + v * r.imag
    return cplx(re, im)


def harness(windows):
    def h(w):
        window = w.choice("window", windows)
        size = len(window)
        c = w.concrete(w.int("channels", 1, 2))
        n = w.concrete(w.int("length", 1, w.limit(9, 12)))
        o = w.choice("offset", (0, 2, -3))
        w.assume(c == 1 or n in (3, 7))
        overlap = w.concrete(w.int("overlap", 0, size - 1))
        pad = w.bool("pad")
        x = w.array("x", (c, n), lo=-1, hi=1)
        labels = labels_of("x", c)
        s = w.sumpf.Signal(channels=x, sampling_rate=40000.0, offset=o, labels=labels)
        ref = Ref(w, x, labels)
        form = w.choice("window_form", ("list", "array", "signal"))
        win = {"list": window, "array": np_array(w, [window]),
               "signal": w.sumpf.Signal(channels=np_array(w, [window]), sampling_rate=40000.0)}[form]
        given = overlap
        if form == "array":
            given = overlap - size
        elif form == "signal" and pad and size in (1, 2, 4):
            given = overlap / size
        X = s.fourier_transform(window=win, overlap=given, pad=True if pad else False)
        same_shape(w, X.channels(), (c, size // 2 + 1), "spectrum")
        w.require(w.close(X.resolution(), 40000.0 / size), "resolution")
        w.require(X.labels() == labels, "labels")
        w.forall((c, size // 2 + 1), lambda i, k: w.close(w.at(X.channels(), i, k), value(lambda t: ref.at(i, t), n, window, overlap, pad, o, k)), "bin")
        ref.unchanged("transformed signal")
    return h


def np_array(w, rows):
    import numpy
    return numpy.array(rows)


def per_channel(w):
    """windows with several channels, and several windows for one channel"""
    c = w.choice("channels", (1, 2, 3))
    windows = [[0.25, 1.0, 0.5, 0.125], [1.0, 1.0, 0.5, 0.5], [0.5, 0.75, 1.0, 0.25]][0:max(c, 2)]
    n = w.concrete(w.int("length", 3, 6))
    overlap = w.concrete(w.int("overlap", 0, 3))
    pad = w.bool("pad")
    x = w.array("x", (c, n), lo=-1, hi=1)
    s = w.sumpf.Signal(channels=x, sampling_rate=40000.0, offset=1, labels=labels_of("x", c))
    ref = Ref(w, x, ())
    X = s.fourier_transform(window=np_array(w, windows), overlap=overlap, pad=True if pad else False)
    same_shape(w, X.channels(), (len(windows), 3), "spectrum")
    w.forall((len(windows), 3), lambda i, k: w.close(w.at(X.channels(), i, k),
                                                     value(lambda t: ref.at(i if c > 1 else 0, t), n, windows[i], overlap, pad, 1, k)), "bin")


CASES = [Case("short windows", harness(WINDOWS[:4]), backend="B", fallback=None, bounds="windows of 1 to 3 samples, length 1..9 (12)"),
         Case("window of 4", harness(WINDOWS[4:5]), backend="B", fallback=None, bounds="length 1..9 (12)"),
         Case("window of 5", harness(WINDOWS[5:6]), backend="B", fallback=None, bounds="length 1..9 (12)"),
         Case("window of 6", harness(WINDOWS[6:7]), backend="B", fallback=None, bounds="length 1..9 (12)"),
         Case("multiple channels", per_channel, backend="B", fallback=None, bounds="1 to 3 channels, length 3..6")]
