"""The impulse responses of the harmonics are cut out where the sweep puts them."""
import math

from .common import *
from .reference import *

ASSUMPTIONS = REALS + DFT + MODEL + ["three exponential sweeps with rising frequencies and their inverses, of different lengths, ranges of frequencies and intervals; impulse responses with 1 or 3 channels "
                                     "that contain the requested part; elements within [-1, 1], results compared with a tolerance of 1e-6"]

SWEEPS = ((10.0, 100.0, 13, (0, 1.0)), (20.0, 1000.0, 21, (2, -1)), (10.0, 20.0, 4, (0, 3)))
SR = 2000.0
COUNTING = {1: "1st", 2: "2nd", 3: "3rd", 4: "4th", 5: "5th"}


def advanced(x, n, fraction, j):
    """sample j of n samples, that are advanced by a fraction of a sample with a band limited interpolation of their periodic continuation"""
    r = 0.0
    for i in range(n):
        t = j - i + fraction
        k = 1.0 + sum(2.0 * math.cos(2.0 * math.pi * f * t / n) for f in range(1, (n + 1) // 2))
        if n % 2 == 0:
            k += math.cos(math.pi * (j - i)) * math.cos(math.pi * fraction)
        r = r + x(i) * (k / n)
    return r


def cut(harmonic):
    return lambda w: cut_harmonic(w, harmonic)


def cut_harmonic(w, harmonic):
    f1, f2, n_sweep, interval = w.choice("sweep", SWEEPS)
    cls = w.choice("class", ("ExponentialSweep", "InverseExponentialSweep"))
    n = w.concrete(w.int("length", w.limit(9, 6), w.limit(12, 22)))
    c = w.choice("channels", (1, 3))
    zero = w.concrete(w.int("zero", 0, n - 1))
    how = w.choice("desired length", ("none", "same", "shorter", "longer"))
    start, stop = interval
    T = ((stop + n_sweep if stop < 0 else n_sweep if isinstance(stop, float) else stop) - start) / SR
    l = T / math.log(f2 / f1)
    if harmonic == 1:
        a, b, fraction = zero, n, 0.0
    else:
        delay = math.log(harmonic) * l * SR
        end = n if zero == 0 else zero
        a = end - math.ceil(delay)
        b = end - math.floor(math.log(harmonic - 1) * l * SR)
        fraction = math.ceil(delay) - delay
    w.assume(a >= 0)
    x = w.array("x", (c, n), lo=-1, hi=1)
    labels = labels_of("x", c)
    ir = w.sumpf.Signal(channels=x, sampling_rate=SR, offset=-zero, labels=labels)
    ref = Ref(w, x, labels)
    sweep = getattr(w.sumpf, cls)(start_frequency=f1, stop_frequency=f2, interval=interval, sampling_rate=SR, length=n_sweep)
    m = b - a
    length = {"none": None, "same": m, "shorter": max(1, m - 2), "longer": m + 3}[how]
    r = sweep.harmonic_impulse_response(ir, harmonic) if length is None else sweep.harmonic_impulse_response(ir, harmonic, length)
    size = m if length is None else length
    padded = max(m, size)
    same_shape(w, r.channels(), (c, size), "harmonic impulse response")
    w.require(w.and_(r.sampling_rate() == SR, r.offset() == 0), "axis")
    w.require(r.labels() == tuple(f"{k} ({COUNTING[harmonic]} harmonic)" for k in labels), "labels")

    def part(i):
        return lambda j: ref.at(i, a + j) if j < m else 0.0
    w.forall((c, size), lambda i, j: w.close(w.at(r.channels(), i, j), advanced(part(i), padded, fraction, j) if harmonic != 1 else part(i)(j)), "sample")
    ref.unchanged("impulse response")


CASES = [Case(f"{COUNTING[n]} harmonic", cut(n), backend="B", fallback=None, bounds="9 to 12 (6 to 22) samples", time_s=300, max_paths=20000) for n in COUNTING]
