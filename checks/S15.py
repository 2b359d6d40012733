"""The short time Fourier transform places every windowed segment in time and frequency; the inverse restores the signal."""
from . import scipysig
from .common import *
from .reference import *
from .S11 import np_array

ASSUMPTIONS = REALS + DFT + ["scipy.signal's stft and istft follow their documented definition (sampled against scipy by the witness runs)",
                             "1 to 2 channels, 1 to 8 samples (thorough: 11), windows of 1 to 5 samples from a list, every overlap below the window length, offsets -5 to 5; tolerance 1e-6"]
OPT = {"shims": {"scipy.signal": scipysig.module}}
WINDOWS = ([1.0], [0.5, 1.0], [0.5, 1.0, 0.25], [0.25, 0.5, 1.0, 0.5], [0.25, 0.5, 1.0, 0.75, 0.5])


def nearest(o, step):
    """o/step, rounded to the nearest integer (ties to even)"""
    q, r = divmod(o, step)
    return q + (1 if 2 * r > step or (2 * r == step and q % 2) else 0)


def several(window, n):
    """a different window for each channel"""
    return [window, [v * v + 0.5 for v in window], [v * 2.0 for v in window]][0:n]


def build(w, window, cmax=2):
    size = len(window)
    c = w.concrete(w.int("channels", 1, cmax))
    n = w.concrete(w.int("length", size, w.limit(8, 11)))
    o = w.concrete(w.int("offset", -5, 5))
    w.assume(w.or_(c == 1, n == 5))
    w.assume(w.or_(o in (0, 1), n in (5, 6)))
    x = w.array("x", (c, n), lo=-1, hi=1)
    labels = labels_of("x", c)
    s = w.sumpf.Signal(channels=x, sampling_rate=4800.0, offset=o, labels=labels)
    return s, Ref(w, x, labels, c=c, n=n, o=o)


def forward(first_window):
    def h(w):
        size = len(first_window)
        window = first_window
        s, ref = build(w, window)
        overlap = w.concrete(w.int("overlap", 0, size - 1))
        step = size - overlap
        pad = True if w.bool("pad") else False
        form = w.choice("window_form", ("list", "signal", "channels"))
        win = window if form == "list" else w.sumpf.Signal(channels=np_array(w, [window]), sampling_rate=4800.0) if form == "signal" else \
            np_array(w, several(window, ref.c))
        r = s.short_time_fourier_transform(win, overlap if form != "signal" else overlap - size, pad)
        # the data that the transform works on
        first = -(size // 2) if pad else 0
        end = ref.n + size // 2 if pad else ref.n
        frames = (-(-(end - first - size) // step) if pad else (end - first - size) // step) + 1
        same_shape(w, r.channels(), (ref.c, size // 2 + 1, frames), "spectrogram")
        w.require(w.close(r.resolution(), 4800.0 / size), "resolution")
        w.require(w.close(r.sampling_rate(), 4800.0 / step), "sampling rate")
        w.require(r.labels() == ref.labels, "labels")
        offset = nearest(ref.o, step)
        w.require(r.offset() == offset, "offset")
        late = ref.o - offset * step
        windows = several(window, ref.c) if form == "channels" else [window] * ref.c
        for c in range(ref.c):
            window = windows[c]
            total = sum(window)
            for k in range(size // 2 + 1):
                for f in range(frames):
                    re, im = 0.0, 0.0
                    for j in range(size):
                        t = first + f * step + j
                        if 0 <= t < ref.n:
                            e = rot(k * (j + late) / size)
                            v = ref.at(c, t) * (window[j] / total)
                            re = re + v * e.real
                            im = im + v * e.imag
                    w.require(w.close(w.at(r.channels(), c, k, f), cplx(re, im)), f"channel {c}, frequency {k}, segment {f}")
        ref.unchanged("transformed signal")
    return h


def round_trip(window):
    """when the offset is a multiple of the step and the overlapping windows cover everything, the signal comes back"""
    def h(w):
        size = len(window)
        s, ref = build(w, window)
        overlap = w.concrete(w.int("overlap", size // 2 if size > 1 else 0, max(size - 1, 0)))
        step = size - overlap
        w.assume(ref.o % step == 0)
        win = window if w.bool("as_list") else np_array(w, several(window, ref.c))
        r = s.short_time_fourier_transform(win, overlap).inverse_short_time_fourier_transform(win, overlap)
        w.require(r.offset() == ref.o, "offset")
        w.require(w.close(r.sampling_rate(), 4800.0), "sampling rate")
        w.require(r.labels() == ref.labels, "labels")
        w.require(len(r) == ref.c, "channels")
        w.require(r.length() >= ref.n, "length")
        for c in range(ref.c):
            for t in range(r.length()):
                w.require(w.close(w.at(r.channels(), c, t), ref.at(c, t) if t < ref.n else 0.0), f"channel {c}, sample {t}")
    return h


CASES = []
for win in WINDOWS:
    CASES.append(Case(f"forward, window of {len(win)}", forward(win), backend="B", fallback=None, options=OPT, witnesses=40, bounds="length up to 8 (11), |offset| <= 5"))
    if len(win) > 1:
        CASES.append(Case(f"round trip, window of {len(win)}", round_trip(win), backend="B", fallback=None, options=OPT, bounds="length up to 8 (11), |offset| <= 5"))
