"""Reference definitions of scipy.stats' skewness and (excess) kurtosis."""
import types

import numpy

from engine.core import SymReal, unary
from engine.npobj import OA, has_sym, _py


def _moment(values, k):
    n = len(values)
    m = 0.0
    for v in values:
        m = m + v
    m = m * (1.0 / n)
    s = 0.0
    for v in values:
        p = 1.0
        for _ in range(k):
            p = p * (v - m)
        s = s + p
    return s * (1.0 / n)


def skew_of(w, values):
    values = [_py(v) for v in values]
    if not any(isinstance(v, SymReal) for v in values):
        import scipy.stats
        return float(scipy.stats.skew([float(v) for v in values]))
    return ratio(_moment(values, 3), _moment(values, 2), 1.5)


def kurtosis_of(w, values):
    values = [_py(v) for v in values]
    if not any(isinstance(v, SymReal) for v in values):
        import scipy.stats
        return float(scipy.stats.kurtosis([float(v) for v in values]))
    return ratio(_moment(values, 4), _moment(values, 2), 2) - 3.0


def ratio(a, b, e):
    d = b * b if e == 2 else b * unary("sqrt", b)
    d.np = True
    return a / d


def module(np):
    import scipy.stats
    m = types.ModuleType("scipy.stats")
    m.__dict__.update(vars(scipy.stats))

    def over(f):
        def g(a, axis=0):
            a = numpy.asarray(a).view(numpy.ndarray)
            if axis is None:
                return f(None, list(a.ravel()))
            r = numpy.moveaxis(a, axis, -1)
            out = numpy.empty(r.shape[:-1], object)
            for i in numpy.ndindex(*r.shape[:-1]):
                out[i] = f(None, list(r[i]))
            return out.view(OA)
        return g
    m.skew, m.kurtosis = over(skew_of), over(kurtosis_of)
    return m
