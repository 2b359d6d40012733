"""The filters of the library have the transfer functions of their definitions."""
import cmath
import math

import numpy

from .common import *
from .filters import *

ASSUMPTIONS = REALS + MODEL + ["the coefficients are computed with real numbers, so that transfer functions are compared with a relative tolerance of 1e-6 "
                               "for the rounded constants in the code"]
OPTIONS = {"core": {"nra": True}, "timeout_ms": 20000}


def poly(roots):
    """coefficients, highest power first, of the monic polynomial with the given roots"""
    r = [1.0]
    for z in roots:
        r = [a - z * b for a, b in zip(r + [0.0], [0.0] + r)]
    return r


def value(coefficients, s):
    r = 0.0
    for c in coefficients:
        r = r * s + c
    return r


def butterworth(n, _):
    poles = [cmath.exp(1j * math.pi * (2 * k + n + 1) / (2 * n)) for k in range(n)]
    return poles, [], 1.0


def chebyshev1(n, ripple):
    eps = math.sqrt(10.0 ** (abs(ripple) / 10.0) - 1.0)
    g = math.asinh(1.0 / eps) / n
    angles = [math.pi * (2 * k + 1) / (2 * n) for k in range(n)]
    return [complex(-math.sinh(g) * math.sin(t), math.cosh(g) * math.cos(t)) for t in angles], [], 1.0


def chebyshev2(n, ripple):
    eps = 1.0 / math.sqrt(10.0 ** (abs(ripple) / 10.0) - 1.0)
    g = math.asinh(1.0 / eps) / n
    angles = [math.pi * (2 * k + 1) / (2 * n) for k in range(n)]
    poles = [1.0 / complex(-math.sinh(g) * math.sin(t), math.cosh(g) * math.cos(t)) for t in angles]
    zeros = [1j / math.cos(t) for t in angles if abs(math.cos(t)) > 1e-9]
    return poles, zeros, 1.0


def real(coefficients):
    """the coefficients of a polynomial whose roots are conjugate, with the constant one normalized to one"""
    c = [x.real if isinstance(x, complex) else x for x in coefficients]
    return [x / c[-1] for x in c]


def bessel(n):
    """the reverse Bessel polynomial, lowest power first"""
    a, b = [1.0], [1.0, 1.0]
    for k in range(2, n + 1):
        shifted = [0.0, 0.0] + a
        scaled = [(2 * k - 1) * x for x in b] + [0.0] * (len(shifted) - len(b))
        a, b = b, [x + y for x, y in zip(shifted, scaled)]
    return b if n else a


def tchebyshev(n, x):
    a, b = 1.0, x
    for _ in range(n):
        a, b = b, 2.0 * x * b - a
    return a


def rational(kind, n, ripple):
    """(numerator, denominator) of the normalized lowpass, highest power first"""
    if kind == "bessel":
        c = bessel(n)
        return [1.0], [x / c[0] for x in reversed(c)]
    poles, zeros, _ = {"butterworth": butterworth, "chebyshev1": chebyshev1, "chebyshev2": chebyshev2}[kind](n, ripple)
    return real(poly(zeros)), real(poly(poles))


def magnitude(kind, n, ripple, r):
    """(numerator, denominator) of the squared magnitude at r times the cutoff frequency; x stands for r ** n * T_n(1 / r)"""
    if kind == "butterworth":
        return 1.0, 1.0 + r ** (2 * n)
    eps2 = 10.0 ** (abs(ripple) / 10.0) - 1.0
    if kind == "chebyshev1":
        return 1.0 + eps2 * tchebyshev(n, 0.0) ** 2, 1.0 + eps2 * tchebyshev(n, r) ** 2
    # 1 / (1 + eps2 / T_n(1 / r) ** 2), multiplied with r ** (2 * n)
    a, b = 1.0, 1.0
    # r ** n * T_n(1 / r) with its own recurrence: U_0 = 1, U_1 = 1, U_{n + 1} = 2 * U_n - r ** 2 * U_{n - 1}
    for _ in range(n):
        a, b = b, 2.0 * b - r ** 2 * a
    return a ** 2, a ** 2 + eps2 * r ** (2 * n)


def make(w, kind, fc, ripple, n, highpass):
    if kind == "butterworth":
        return w.sumpf.ButterworthFilter(cutoff_frequency=fc, order=n, highpass=highpass)
    if kind == "bessel":
        return w.sumpf.BesselFilter(cutoff_frequency=fc, order=n, highpass=highpass)
    if kind == "chebyshev1":
        return w.sumpf.Chebyshev1Filter(cutoff_frequency=fc, ripple=ripple, order=n, highpass=highpass)
    return w.sumpf.Chebyshev2Filter(cutoff_frequency=fc, ripple=ripple, order=n, highpass=highpass)


TOLERANCE = 1e-9


def check(w, H, num, den, s, label):
    """H == num(s) / den(s)"""
    scale = value([abs(x) for x in num], abs(s.imag))
    w.require(w.near(H * value(den, s), value(num, s), scale, TOLERANCE), label)


def rolloff(kind, orders, ripples, thorough):
    def h(w):
        n = w.choice("order", w.limit(orders, thorough))
        highpass = w.choice("highpass", (False, True))
        ripple = w.choice("ripple", ripples)
        fc = w.real("cutoff_frequency", 0.1, 100000.0)
        r = w.real("ratio", 0.01, 100.0, np=True)
        kind_ = "butterworth" if kind == "chebyshev1" and ripple == 0.0 else kind
        num, den = rational(kind_, n, ripple)
        filter_ = make(w, kind, fc, ripple, n, highpass)
        # the response of a highpass at fc / r is that of the lowpass at -fc * r
        got = filter_(w.np.array([fc / r if highpass else fc * r]))
        w.require(len(got) == 1 and len(got[0]) == 1, "one value")
        H = w.at(got[0], 0)
        s = w.complex_(0.0, -r if highpass else r)
        scale = value([abs(x) for x in num], r)
        w.require(w.near(H * value(den, s), value(num, s), scale), "transfer function")
        if kind_ != "bessel" and n <= 3:
            a, b = magnitude(kind_, n, ripple, r)
            w.require(w.near((H.real ** 2 + H.imag ** 2) * b, a, scale ** 2), "magnitude")
        w.require(filter_.order() == n, "order")
        w.require(w.same(filter_.cutoff_frequency(), fc), "cutoff frequency")
        w.require(filter_.is_highpass() is highpass, "highpass")
        w.require(filter_.labels() == ({"butterworth": "Butterworth", "chebyshev1": "Chebyshev 1", "chebyshev2": "Chebyshev 2", "bessel": "Bessel"}[kind],), "label")
        if ripple is not None:
            w.require(filter_.ripple() == ripple, "ripple")
    return h


def c_poles():
    """the frequencies f_1 and f_4 of IEC 61672-1, appendix E"""
    low, high, d, fr = 10.0 ** 3, 10.0 ** 7.8, 0.5 ** 0.5, 1000.0
    c = low * high
    b = (fr ** 2 + c / fr ** 2 - d * (low + high)) / (1.0 - d)
    root = math.sqrt(b ** 2 - 4.0 * c)
    return math.sqrt((-b - root) / 2.0), math.sqrt((-b + root) / 2.0)


def weightings():
    """name -> (zeros, poles) in Hz on the left half of the complex plane"""
    f1, f4 = c_poles()
    fa = 10 ** 2.45
    f2, f3 = (3.0 - math.sqrt(5.0)) / 2.0 * fa, (3.0 + math.sqrt(5.0)) / 2.0 * fa

    def pair(f0squared, bsquared):
        # the roots of s ** 2 + b * s + f0 ** 2
        b = math.sqrt(bsquared)
        d = cmath.sqrt(b ** 2 / 4.0 - f0squared)
        return [-b / 2.0 + d, -b / 2.0 - d]
    return {"A": ([0.0] * 4, [-f1, -f1, -f2, -f3, -f4, -f4]),
            "B": ([0.0] * 3, [-f1, -f1, -158.5, -f4, -f4]),
            "C": ([0.0] * 2, [-f1, -f1, -f4, -f4]),
            "D": ([0.0] + pair(1037918.48, 1080768.16), [-math.sqrt(79919.29), -math.sqrt(1345600.0)] + pair(9837328.0, 11723776.0)),
            "U": ([], [-12200.0, -12200.0, -7850.0 + 8800.0j, -7850.0 - 8800.0j, -2900.0 + 12150.0j, -2900.0 - 12150.0j])}


def weighting(w):
    name = w.choice("weighting", ("A", "B", "C", "D", "U"))
    zeros, poles = weightings()[name]
    x = w.real("kilohertz", 0.001, 200.0, np=True)
    # frequencies in kHz keep the coefficients in a reasonable range
    num, den = [[c.real if isinstance(c, complex) else c for c in poly([z / 1000.0 for z in roots])] for roots in (zeros, poles)]
    gain = value(den, 1j) / value(num, 1j)
    filter_ = getattr(w.sumpf, name + "Weighting")()
    got = filter_(w.np.array([1000.0 * x]))
    w.require(len(got) == 1 and len(got[0]) == 1, "one value")
    H = w.at(got[0], 0)
    s = w.complex_(0.0, x)
    scale = value([abs(c) for c in num], x) * abs(gain)
    w.require(w.near(H * value(den, s), gain * value(num, s), scale), "transfer function")
    at = complex(filter_(numpy.array([1000.0]))[0][0])
    w.require(abs(at - 1.0) < 1e-12, "no gain and no phase at 1 kHz")
    w.require(filter_.labels() == (f"{name}-weighting",), "label")


def delay(w):
    d = w.real("delay", -10, 10)
    f = frequency(w)
    filter_ = w.sumpf.DelayFilter(d)
    want = exponential(w, -d * laplace(w, f))
    is_value(w, filter_, f, [want])
    w.require(filter_.labels() == ("Delay",), "label")
    # two delays add up
    if w.choice("product", (False, True)):
        e = w.choice("second", (0.0, 0.25, -2.0))
        second = w.sumpf.DelayFilter(e)
        want = exponential(w, -d * laplace(w, f)) * exponential(w, -e * laplace(w, f))
        is_value(w, filter_ * second, f, [want], "product")


def derivative(w):
    f = frequency(w)
    filter_ = w.sumpf.DerivativeFilter()
    is_value(w, filter_, f, [laplace(w, f)])
    w.require(filter_.labels() == ("Derivative",), "label")
    is_value(w, filter_ * filter_, f, [laplace(w, f) ** 2], "second derivative")
    is_value(w, ~filter_, f, [1.0 / laplace(w, f)], "integral")


ORDERS = (1, 2, 3, 4, 5)
MORE = ORDERS + (6, 7)
DEEP = tuple(range(1, 11))
CASES = [Case("Butterworth", rolloff("butterworth", MORE, (None,), DEEP), backend="B", fallback=None, options=OPTIONS),
         Case("Bessel", rolloff("bessel", MORE, (None,), DEEP), backend="B", fallback=None, options=OPTIONS),
         Case("Chebyshev 1", rolloff("chebyshev1", ORDERS, (3.0, 0.0, 0.1, -6.0), DEEP), backend="B", fallback=None, options=OPTIONS),
         Case("Chebyshev 2", rolloff("chebyshev2", ORDERS, (60.0, 3.0, -20.0), DEEP), backend="B", fallback=None, options=OPTIONS),
         Case("weightings", weighting, backend="B", fallback=None, options=OPTIONS), Case("delay", delay, backend="B", fallback=None, options=OPTIONS),
         Case("derivative", derivative, backend="B", fallback=None, options=OPTIONS)]
