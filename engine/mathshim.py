"""math as the code under test sees it."""
import math
import types

from . import core
from .core import is_sym, unary, SymReal, SymInt, SymComplex, Unsupported, real


def make_module():
    m = types.ModuleType("math")
    m.__dict__.update(vars(math))

    def wrap(name, uname=None):
        f = getattr(math, name)

        def g(x, *rest):
            if is_sym(x) or any(is_sym(r) for r in rest):
                if rest:
                    raise Unsupported(f"math.{name} with two symbolic arguments")
                if isinstance(x, SymComplex):
                    raise TypeError("can't convert complex to float")
                return SymReal(unary(uname or name, x).p, False)
            return f(x, *rest)
        g.__name__ = name
        return g
    for n, u in (("sqrt", None), ("sin", None), ("cos", None), ("tan", None), ("exp", None), ("log2", None), ("log10", None), ("sinh", None),
                 ("cosh", None), ("tanh", None), ("asin", "arcsin"), ("acos", "arccos"), ("atan", "arctan"), ("asinh", "arcsinh"),
                 ("acosh", "arccosh"), ("log", None), ("log1p", None), ("expm1", None)):
        if hasattr(math, n):
            m.__dict__[n] = wrap(n, u)

    def log(x, base=None):
        if is_sym(x) or is_sym(base):
            r = SymReal(unary("log", x).p, False)
            return r if base is None else r / log(base)
        return math.log(x) if base is None else math.log(x, base)

    def fsum(it):
        items = list(it)
        if any(is_sym(i) for i in items):
            r = 0.0
            for i in items:
                r = r + i
            return r
        return math.fsum(items)

    def fabs(x):
        return abs(real(x)) if is_sym(x) else math.fabs(x)

    def pow_(a, b):
        return core.power(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b)

    def isnan(x):
        return False if is_sym(x) else math.isnan(x)

    def isinf(x):
        return False if is_sym(x) else math.isinf(x)

    def isfinite(x):
        return True if is_sym(x) else math.isfinite(x)

    def floor(x):
        return x.__floor__() if is_sym(x) else math.floor(x)

    def ceil(x):
        return x.__ceil__() if is_sym(x) else math.ceil(x)

    def trunc(x):
        return x.__trunc__() if is_sym(x) else math.trunc(x)

    def hypot(a, b):
        return unary("sqrt", real(a * a + b * b)) if is_sym(a) or is_sym(b) else math.hypot(a, b)

    def prod(it, start=1):
        r = start
        for i in it:
            r = r * i
        return r
    m.__dict__.update(log=log, fsum=fsum, fabs=fabs, pow=pow_, isnan=isnan, isinf=isinf, isfinite=isfinite, floor=floor, ceil=ceil,
                      trunc=trunc, hypot=hypot, prod=prod)
    return m
