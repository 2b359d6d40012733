"""The energy decay curve is the tail sum of the squared impulse response; its fit is the least squares line of the levels."""
from .common import *
from .reference import *

ASSUMPTIONS = REALS + ["logarithms and powers are uninterpreted", "least squares fits are computed through the normal equations (sampled against numpy by the witness runs)",
                       "1 to 2 channels, 1 to 7 samples"]


def build(w, nmin=1):
    c = w.concrete(w.int("channels", 1, 2))
    n = w.concrete(w.int("length", nmin, 7))
    o = w.int("offset", -100, 100)
    x = w.array("x", (c, n), lo=-1, hi=1)
    labels = labels_of("x", c)
    s = w.sumpf.Signal(channels=x, sampling_rate=100.0, offset=o, labels=labels)
    return s, Ref(w, x, labels, c=c, n=n, o=o), w.sumpf.EnergyDecayCurve(s)


def curve(w):
    s, ref, e = build(w)
    same_shape(w, e.channels(), (ref.c, ref.n), "curve")
    w.require(w.and_(e.offset() == ref.o, e.sampling_rate() == 100.0), "axis")
    w.require(e.labels() == ref.labels, "labels")
    for c in range(ref.c):
        for i in range(ref.n):
            total = 0.0
            for j in range(i, ref.n):
                total = total + ref.at(c, j) * ref.at(c, j)
            w.require(w.close(w.at(e.channels(), c, i), total), f"remaining energy of channel {c} at sample {i}")
    ref.unchanged("impulse response")


def index(v, n):
    i = round(v * n) if isinstance(v, float) else v
    return i + n if i < 0 else i


def fit(w):
    s, ref, e = build(w, nmin=3)
    w.assume(ref.n >= 5 if ref.c == 1 else ref.n == 5)
    start = w.choice("start", (0, 1, -4, 0.25, -ref.n))
    stop = w.choice("stop", (3, 4, -1, 0.75, ref.n, 1.0))
    a, b = index(start, ref.n), index(stop, ref.n)
    w.assume(b - a >= 2)
    # samples that leave energy everywhere
    for c in range(ref.c):
        w.assume(w.or_(ref.at(c, ref.n - 1) >= 0.25))
    times = e.reverberation_time(start, stop)
    model = e.decay_model(start, stop)
    w.require(len(times) == ref.c, "one reverberation time per channel")
    same_shape(w, model.channels(), (ref.c, ref.n), "model")
    w.require(w.and_(model.offset() == ref.o, model.sampling_rate() == 100.0), "axis of the model")
    w.require(model.labels() == ref.labels, "labels of the model")
    xs = list(range(a, b))
    mean = sum(xs) / len(xs)
    spread = sum((x - mean) ** 2 for x in xs)
    for c in range(ref.c):
        slope, level = 0.0, 0.0
        for x in xs:
            total = 0.0
            for j in range(ref.n - 1, x - 1, -1):
                total = total + ref.at(c, j) * ref.at(c, j)
            y = w.np.log10(total)
            w.assume(w.and_(y >= -2.0, y <= 1.0))       # follows from the samples' bounds
            slope = slope + y * (10.0 * (x - mean) / spread)
            level = level + y * (10.0 / len(xs))
        # a decay of 60 dB
        w.assume(w.or_(slope < -1e-6, slope > 1e-6))
        w.require(w.close(1.0 / times[c], slope * (-100.0 / 60.0), 1e-5), f"reverberation time of channel {c}")
        for i in (0, 1, ref.n - 1):
            want = slope * (i - mean) + level
            w.require(w.close(w.np.log10(w.at(model.channels(), c, i)) * 10.0, want, 1e-5), f"decay model of channel {c} at sample {i}")


CASES = [Case("curve", curve, backend="B", fallback=None, bounds="channels 1..2, length 1..7"),
         Case("fit", fit, backend="B", fallback=None, bounds="length 5..7, bounds from a list")]
