"""Sweeps have the phase that belongs to their instantaneous frequency."""
import math

from .common import *
from .reference import *
from .filters import exponential
from . import numexprshim

ASSUMPTIONS = REALS + UFS + MODEL
SHIMS = {"shims": {"numexpr": numexprshim.module}}


def sine(w, x):
    if w.symbolic:
        from engine import core
        return core.unary("sin", core.real(x))
    return math.sin(x)


def log(w, x):
    if w.symbolic:
        from engine import core
        return core.unary("log", core.real(x))
    return math.log(x)


def exp(w, x):
    if w.symbolic:
        from engine import core
        return core.unary("exp", core.real(x))
    return math.exp(x)


INTERVALS = ((0, 1.0), (1, 4), (0.25, -0.25), (1, -1), (0.0, 3), (-3, -1))

LONG = ((0, 1.0), (1, -1), (0.25, -0.25), (-0.75, 0.9))


def resolved(w, i, n):
    """the index that is meant by an integer or a part of the length"""
    if isinstance(i, float):
        i = round(i * n)
    while i < 0:
        i = i + n
    return i


def parameters(w, n, exponential_, long):
    # long sweeps have so many periods that their phase must be well conditioned for the witness runs
    f1 = w.real("start_frequency", 1, 100 if long else 1000)
    f2 = w.real("stop_frequency", 1, 100 if long else 1000)
    # the frequencies differ clearly, so that the solver's counterexamples can be seen in floats
    w.assume(w.or_(f1 <= f2 - 10, f2 <= f1 - 10, w.and_(f1 == f2, not exponential_)))
    sr = w.real("sampling_rate", 1000 if long else 1, 10000)
    phase = w.real("phase", -10, 10)
    interval = w.choice("interval", (LONG if long is True else long) if long else INTERVALS)
    a, b = (resolved(w, i, n) for i in interval)
    w.assume(a != b)
    return f1, f2, sr, phase, interval, a, b


def sweep(name, long=False):
    inverse, exp_ = name.startswith("Inverse"), name.endswith("ExponentialSweep")

    def h(w):
        n = w.int("length", 1, BIG, (1, 9)) if long else w.concrete(w.int("length", 1, w.limit(6, 9)))
        f1, f2, sr, phase, interval, a, b = parameters(w, n, exp_, long)
        T = (b - a) / sr
        w.assume(T != 0)
        if exp_:
            w.assume(log(w, f2 / f1) != 0)
            w.assume(T / log(w, f2 / f1) != 0)
        s = getattr(w.sumpf, name)(start_frequency=f1, stop_frequency=f2, phase=phase, interval=interval, sampling_rate=sr, length=n)
        same_shape(w, s.channels(), (1, n), "sweep")
        w.require(w.same(s.sampling_rate(), sr), "sampling rate")
        w.require(s.offset() == (-a - b if inverse else 0), "offset")
        k = (f2 - f1) / T if not exp_ else None
        l = T / log(w, f2 / f1) if exp_ else None

        def frequency(t):
            # the inverse sweep is reversed in time
            t = T - (t - a / sr) if inverse else t - a / sr
            return f1 * exp(w, t / l) if exp_ else f1 + k * t
        def check(i):
            t = (b - i) / sr if inverse else (i - a) / sr
            if exp_:
                e = exp(w, t / l)
                want = sine(w, 2.0 * math.pi * f1 * l * (e - 1.0) + phase)
                if inverse:
                    want = want * e * (2.0 * f1 / (l * (f2 - f1) * sr))
            else:
                want = sine(w, 2.0 * math.pi * (f1 * t + k * t * t / 2.0) + phase)
                if inverse:
                    want = want * (2.0 / (b - a))
            return w.close(w.at(s.channels(), 0, i) * (b - a), want * (b - a)) if inverse else w.close(w.at(s.channels(), 0, i), want)
        w.forall((n,), check, "samples")
        if not long:
            for i in range(n):
                w.require(w.close(s.instantaneous_frequency(i / sr), frequency(i / sr)), f"instantaneous frequency at sample {i}")
    return h


CASES = [Case(name, sweep(name), backend="B", fallback=None, options=SHIMS, bounds="1 to 6 (9) samples", time_s=150)
         for name in ("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep")]
# the factor of the inverse exponential sweep is not decided for other intervals (the short case has them)
CASES += [Case(f"long {name}", sweep(name, LONG[:1] if name == "InverseExponentialSweep" else True), options=SHIMS, fallback=None, bounds="lengths up to 10^6", time_s=150)
          for name in ("LinearSweep", "InverseLinearSweep", "ExponentialSweep", "InverseExponentialSweep")]
