"""Filters whose transfer functions are known to the harness."""
import math
import operator

BINARY = ("add", "sub", "mul", "div")
UNARY = ("neg", "abs", "inv")
OP = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv}
LABEL = {"add": "Sum", "sub": "Difference", "mul": "Product", "div": "Quotient"}
PRIMITIVE = ("C", "K", "P", "E", "B")
COMPOSITE = ("S", "D", "M", "Q", "A", "N")


def frequency(w):
    return w.real("f", 0.1, 100000.0, np=True)


def laplace(w, f):
    return w.complex_(0.0, 2.0 * math.pi * f)


def nonzero(w, v):
    """v is used as a denominator"""
    w.assume(w.or_(v.real != 0, v.imag != 0) if hasattr(v, "imag") else v != 0)
    return v


def exponential(w, x):
    if w.symbolic:
        from engine import core
        return core.unary("exp", core.SymComplex.of(x))
    import cmath
    return cmath.exp(x)


def number(w, name, kind):
    if kind == "complex":
        return w.complex_(w.real(name + "r", -10, 10), w.real(name + "i", -10, 10))
    return w.real(name, -10, 10)


def term(w, kind, name, f, plain=False):
    """
    (term, function of s) for a kind of term. The trailing T of a kind stands for
    the lowpass-to-highpass transform, which replaces s with 1/s.
    """
    F = w.sumpf.Filter
    t = kind.endswith("T")
    base = kind[:-1] if t else kind

    def num(n, special=False):
        v = number(w, name + n, "real")
        if plain and not special:
            w.assume(v != 0)
        return v

    def sub(n, k):
        return term(w, k, name + n, f, plain is not None)
    if base == "C":
        c = num("c", True)
        return F.Constant(c), lambda s: c
    if base == "K":
        c = number(w, name + "k", "complex")
        return F.Constant(c), lambda s: c
    if base == "BZ":
        y = num("y")
        return F.Bands(xs=w.np.array([0.01, 0.02]), ys=w.np.array([0.0, y]), interpolation=w.sumpf.Bands.interpolations.LINEAR,
                       extrapolation=w.sumpf.Bands.interpolations.STAIRS_LIN), lambda s: y
    if base == "B":
        y, z = num("y", True), num("z", True)
        return F.Bands(xs=w.np.array([f, 2.0 * f]), ys=w.np.array([y, z]), interpolation=w.sumpf.Bands.interpolations.LINEAR,
                       extrapolation=w.sumpf.Bands.interpolations.STAIRS_LIN), lambda s: y
    if base == "P":
        a, b = num("p"), num("q")
        r = F.Polynomial((a, b), transform=t), lambda s: a * s + b
    elif base == "E":
        a = num("e")
        r = F.Exp(a, transform=t), lambda s: exponential(w, a * s)
    elif base == "S":
        (x, g), (y, h), (z, i) = sub("1", "C"), sub("2", "P"), sub("3", "E")
        r = F.Sum((x, y, z), transform=t), lambda s: g(s) + h(s) + i(s)
    elif base == "S2":
        (x, g), (y, h) = sub("1", "P"), sub("2", "E")
        r = F.Sum((x, y), transform=t), lambda s: g(s) + h(s)
    elif base == "D":
        (x, g), (y, h) = sub("1", "P"), sub("2", "E")
        r = F.Difference(x, y, transform=t), lambda s: g(s) - h(s)
    elif base == "DC":
        (x, g), (y, h) = sub("1", "C"), sub("2", "P")
        r = F.Difference(x, y, transform=t), lambda s: g(s) - h(s)
    elif base == "M":
        (x, g), (y, h), (z, i) = sub("1", "C"), sub("2", "P"), sub("3", "ET")
        r = F.Product((x, y, z), transform=t), lambda s: g(s) * h(s) * i(s)
    elif base == "M2":
        (x, g), (y, h) = sub("1", "PT"), sub("2", "E")
        r = F.Product((x, y), transform=t), lambda s: g(s) * h(s)
    elif base == "Q":
        (x, g), (y, h) = sub("1", "C"), sub("2", "P")
        r = F.Quotient(x, y, transform=t), lambda s: g(s) / nonzero(w, h(s))
    elif base == "A":
        x, g = sub("1", "P")
        r = F.Absolute(x, transform=t), lambda s: abs(g(s))
    elif base == "N":
        x, g = sub("1", "E")
        r = F.Negative(x, transform=t), lambda s: -g(s)
    else:
        raise ValueError(kind)
    if t:
        return r[0], lambda s: r[1](1.0 / s)
    return r


def one(w, kind, name, f, plain=False):
    """a filter with one channel and its transfer function"""
    t, fn = term(w, kind, name, f, plain)
    return w.sumpf.Filter(transfer_functions=(t,), labels=(name,)), fn


def binary(w, op, a, b):
    """the value that a filter has to have after the operation"""
    return a / nonzero(w, b) if op == "div" else OP[op](a, b)


def unary(w, op, a):
    if op == "inv":
        return 1.0 / nonzero(w, a)
    return -a if op == "neg" else abs(a)


def apply(op, a):
    return ~a if op == "inv" else -a if op == "neg" else abs(a)


def is_value(w, filter_, f, want, label="value"):
    got = filter_(w.np.array([f]))
    w.require(len(got) == len(want), f"{label}: number of channels")
    for i, v in enumerate(want):
        w.require(len(got[i]) == 1, f"{label}: one value per frequency")
        w.require(w.equal(w.at(got[i], 0), v), f"{label} of channel {i}")
