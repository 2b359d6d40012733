"""The three worlds a property harness runs in.

The same harness text runs with symbolic values and symbolic shapes (mode "A"),
with symbolic element values and solver-enumerated shapes (mode "B"), and with
plain numbers on the plainly imported package (mode "C": witness and replay runs).
"""
import math
import random
import time
from fractions import Fraction

import numpy

from . import core, files
from .core import (SymInt, SymReal, SymBool, SymComplex, Unsupported, Inconclusive, CheckFailed, PathAbort, ite, b_and, b_or, b_not,
                   is_sym, real as to_real)
from .symarray import SymArray

z3 = core.z3


class Skip(core.EngineSignal):
    """the drawn values are outside the harness's preconditions (concrete runs only)"""


class World:
    symbolic = False
    mode = "C"
    deep = True

    def limit(self, quick, thorough):
        """a size bound for the respective tier"""
        return thorough if self.deep else quick

    # ---- logic, usable on symbolic and concrete values alike
    def and_(self, *xs):
        return b_and(*xs) if any(isinstance(x, SymBool) for x in xs) else all(bool(x) for x in xs)

    def or_(self, *xs):
        return b_or(*xs) if any(isinstance(x, SymBool) for x in xs) else any(bool(x) for x in xs)

    def not_(self, x):
        return b_not(x) if isinstance(x, SymBool) else not bool(x)

    def implies(self, a, b):
        """b may be a thunk, which is not evaluated when a is plainly false"""
        if not isinstance(a, SymBool) and not bool(a):
            return True
        return self.or_(self.not_(a), b() if callable(b) else b)

    def ite(self, cond, a, b):
        """a and b may be thunks"""
        if not isinstance(cond, SymBool):
            r = a if bool(cond) else b
            return r() if callable(r) else r
        return ite(cond, a() if callable(a) else a, b() if callable(b) else b)

    def min(self, a, *rest):
        for b in rest:
            a = self.ite(a <= b, a, b)
        return a

    def max(self, a, *rest):
        for b in rest:
            a = self.ite(a >= b, a, b)
        return a

    def abs(self, a):
        return self.ite(a >= 0, a, -a)

    def complex_(self, re, im):
        return SymComplex(re, im) if is_sym(re) or is_sym(im) else complex(re, im)


def as_plain(x):
    return x.item() if isinstance(x, numpy.generic) else x


class SymWorld(World):
    symbolic = True

    def __init__(self, sumpf, mode, npmod, small=False, loader=None, deep=False):
        self.deep = deep
        self.bounds = {}           # atom -> greatest absolute value
        self.sumpf = sumpf
        self.mode = mode
        self.np = npmod
        self.small = small
        self.loader = loader
        self.inputs = []           # (name, kind, term, info)
        self.arrays = []
        self.c = core.ctx()
        self.names = set()

    def module(self, name):
        return self.loader.load(name)

    # ---- inputs
    def _name(self, name):
        if name in self.names:
            raise RuntimeError(f"duplicate input name {name}")
        self.names.add(name)
        return name

    def int(self, name, lo, hi, small=None):
        if self.small and small is not None:
            lo, hi = small
        if lo == hi:
            self.inputs.append((self._name(name), "const", lo, None))
            return lo
        t = z3.Int(self._name(name))
        self.inputs.append((name, "int", t, (lo, hi)))
        self.c.assume_quiet(z3.And(t >= lo, t <= hi))
        return SymInt.atom(t)

    def real(self, name, lo=None, hi=None, np=False):
        t = z3.Real(self._name(name))
        self.inputs.append((name, "real", t, (lo, hi)))
        if lo is not None:
            self.c.assume_quiet(t >= z3.RealVal(str(lo)))
        if hi is not None:
            self.c.assume_quiet(t <= z3.RealVal(str(hi)))
        if lo is not None and hi is not None:
            self.bounds[core._atom(t)] = max(abs(Fraction(str(lo))), abs(Fraction(str(hi))))
        return SymReal.atom(t, np)

    def texts(self, forms=files.FORMS):
        """numbers may be written to files from now on"""
        files.activate(self.choice("number format", forms))

    def number(self, name, lo=-10, hi=10):
        """a number that is written in the chosen format"""
        return self.real(name, lo, hi, np=True)

    def bool(self, name):
        t = z3.Bool(self._name(name))
        self.inputs.append((name, "bool", t, None))
        return SymBool(t)

    def choice(self, name, options):
        """one of the options; the exploration forks over all of them"""
        n = len(options)
        if n == 1:
            return options[self.int(name, 0, 0)]
        t = z3.Int(self._name(name))
        self.inputs.append((name, "int", t, (0, n - 1)))
        return options[self.c.choose(t, n)]

    def function(self, name, n, *parameters, lo=None, hi=None):
        """an array of n elements, of which each is an arbitrary function of the parameters, n and its index"""
        def element(i):
            r = core.uf(name, *parameters, n, i)
            if lo is not None:
                self.c.assume_quiet((r >= lo).z)
            if hi is not None:
                self.c.assume_quiet((r <= hi).z)
            return r
        if self.mode == "A":
            return SymArray.new((n,), numpy.dtype("f8"), lambda idx: element(idx[0]), name=name)
        from .npobj import OA
        n = int(n) if isinstance(n, int) else n.__index__()
        a = numpy.empty(n, object)
        for i in range(n):
            a[i] = element(i)
        return a.view(OA)

    def array(self, name, shape, dtype="f8", lo=None, hi=None):
        """an array of arbitrary elements"""
        self._name(name)
        dt = numpy.dtype(dtype)
        shape = tuple(shape)
        self.arrays.append((name, shape, dt))
        self.inputs.append((name, "array", None, (shape, dt.str, lo, hi)))
        if self.mode == "A":
            f = z3.Function(name, *([z3.IntSort()] * len(shape)), z3.RealSort()) if shape else None

            def fn(idx):
                t = f(*(core.zint(i) for i in idx))
                if lo is not None:
                    self.c.assume_quiet(t >= z3.RealVal(str(lo)))
                if hi is not None:
                    self.c.assume_quiet(t <= z3.RealVal(str(hi)))
                return SymReal.atom(t, True)
            for s in shape:
                if s < 0:
                    raise PathAbort()
            return SymArray.new(shape, dt, fn, name=name)
        from .npobj import OA
        shape = tuple(int(s) if isinstance(s, int) else s.__index__() for s in shape)
        a = numpy.empty(shape, object)
        for idx in numpy.ndindex(*shape):
            n = name + "_" + "_".join(str(i) for i in idx)
            if dt.kind == "c":
                ts = (z3.Real(n + "r"), z3.Real(n + "i"))
            else:
                ts = (z3.Real(n),)
            for t in ts:
                if lo is not None:
                    self.c.assume_quiet(t >= z3.RealVal(str(lo)))
                if hi is not None:
                    self.c.assume_quiet(t <= z3.RealVal(str(hi)))
                if lo is not None and hi is not None:
                    self.bounds[core._atom(t)] = max(abs(Fraction(str(lo))), abs(Fraction(str(hi))))
            a[idx] = SymReal.atom(ts[0], True) if len(ts) == 1 else SymComplex(SymReal.atom(ts[0], True), SymReal.atom(ts[1], True))
        return a.view(OA)

    def assume(self, cond):
        self.c.assume(cond)

    def concrete(self, x):
        """forks until x is a python int"""
        return x if isinstance(x, int) else int(x)

    # ---- results
    def shape(self, a):
        return tuple(a.shape)

    def at(self, a, *idx):
        """element of an array the code returned; inside forall the index is known to be in range"""
        if isinstance(a, SymArray):
            return a.at(tuple(idx))
        r = a[tuple(i if isinstance(i, int) else int(i) for i in idx)]
        return as_plain(r)

    def same(self, a, b):
        """equality of two element values"""
        a, b = as_plain(a), as_plain(b)
        if not (is_sym(a) or is_sym(b)):
            return _close(a, b)
        if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
            a, b = SymComplex.of(a), SymComplex.of(b)
            return b_and(self.same(a.re, b.re), self.same(a.im, b.im))
        if isinstance(a, SymBool) or isinstance(b, SymBool):
            return core.mkbool(core.to_z3bool(a) == core.to_z3bool(b))
        r = to_real(a) == to_real(b) if not isinstance(a, SymInt) or not isinstance(b, SymInt) else a == b
        return r

    def identical(self, a, b):
        """equality without any rounding"""
        return self.same(a, b)

    def equal(self, a, b):
        """equality of two rational expressions of the inputs, whose denominators the harness assumed not to be zero"""
        a, b = as_plain(a), as_plain(b)
        if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
            a, b = SymComplex.of(a), SymComplex.of(b)
            return b_and(self.equal(a.re, b.re), self.equal(a.im, b.im))
        if not (is_sym(a) or is_sym(b)):
            return _close(a, b)
        d = core.numerator((to_real(a) - to_real(b)).p)
        if not d:
            return True
        d = core.numerator(core.substitute_known(d))
        return core.vanishes(d)

    def close(self, a, b, tol=1e-6):
        """equality up to tol (the inputs are bounded, so tol is absolute)"""
        a, b = as_plain(a), as_plain(b)
        if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
            a, b = SymComplex.of(a), SymComplex.of(b)
            return b_and(self.close(a.re, b.re, tol), self.close(a.im, b.im, tol))
        if not (is_sym(a) or is_sym(b)):
            return abs(a - b) <= tol
        d = to_real(a) - to_real(b)
        d = SymReal(core.partial_fractions(d.p), d.np)
        self._bound_products(d)
        return b_and(d <= tol, d >= -tol)

    def near(self, a, b, scale, tol=1e-9):
        """
        whether two rational expressions of the inputs differ by no more than tol * scale.
        The denominators must not be zero. It is decided with nonlinear arithmetic.
        """
        a, b = as_plain(a), as_plain(b)
        if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
            a, b = SymComplex.of(a), SymComplex.of(b)
            return b_and(self.near(a.re, b.re, scale, tol), self.near(a.im, b.im, scale, tol))
        scale = as_plain(scale)
        if not (is_sym(a) or is_sym(b) or is_sym(scale)):
            return bool(abs(a - b) <= tol * scale)
        # the marker finds out with which denominators the difference is multiplied
        marker = SymReal.atom(z3.Real("marker"))
        (m, _), = marker.p.items()
        i = m[0][0]
        d, q = {}, {}
        for m, k in core.numerator((to_real(a) - to_real(b) + marker * to_real(scale)).p).items():
            e = dict(m).get(i, 0)
            if e:
                q[tuple(x for x in m if x[0] != i)] = k
            else:
                d[m] = k
        if not d:
            return True
        before = core.OPTIONS["nra"]
        core.OPTIONS["nra"] = True
        try:
            t = Fraction(tol).limit_denominator(10 ** 15)
            d, q = core.preal(d), core.preal(q) * z3.RealVal(f"{t.numerator}/{t.denominator}")
            return core.mkbool(z3.Or(z3.And(d <= q, -d <= q), z3.And(d <= -q, -d <= -q)))
        finally:
            core.OPTIONS["nra"] = before

    def _bound_products(self, d):
        """tells the solver the range of products of bounded inputs (facts that follow from the inputs' bounds)"""
        for m in d.p:
            if len(m) == 1 and m[0][1] == 1 or not m:
                continue
            limit = Fraction(1)
            for atom, e in m:
                if e < 0 or atom not in self.bounds:
                    limit = None
                    break
                limit *= self.bounds[atom] ** e
            if limit is not None:
                t = core._mono_real(m)
                lim = z3.RealVal(f"{limit.numerator}/{limit.denominator}")
                key = ("bound", t.get_id())
                if key not in self.c.axiom_done:
                    self.c.axiom_done.add(key)
                    self.c.assume_quiet(z3.And(t <= lim, t >= -lim))

    # ---- obligations
    def require(self, cond, label):
        self.c.stats.reach += 1
        self.c.prove(cond, label)

    def forall(self, dims, fn, label):
        """fn(*indices) must hold for every index tuple within dims"""
        if self.mode != "A":
            self.c.stats.reach += 1
            for idx in numpy.ndindex(*[int(d) if isinstance(d, int) else d.__index__() for d in dims]):
                self.c.prove(fn(*(int(i) for i in idx)), f"{label} at {tuple(int(i) for i in idx)}")
            return
        idx = []
        extra = []
        for d in dims:
            if isinstance(d, int) and d == 1:
                idx.append(0)
                continue
            if isinstance(d, int) and d <= 0:
                return
            t = self.c.fresh("i", z3.IntSort())
            idx.append(SymInt.atom(t))
            extra += [t >= 0, t < core.zint(d)]
        self.c.nofork += 1
        try:
            cond = fn(*idx)
        finally:
            self.c.nofork -= 1
        if self.c.stats.reach == 0 and self.c.check(*extra) == z3.sat:
            self.c.stats.reach += 1
        self.c.prove(cond, label, extra)

    def fail(self, label):
        self.c.prove(False, label)


class ConcreteWorld(World):
    mode = "C"

    def __init__(self, sumpf, values, seed=0, arrays=None):
        self.sumpf = sumpf
        self.np = numpy
        self.values = values
        self.random = random.Random(seed)
        self.nrandom = numpy.random.RandomState(seed % (2 ** 31))
        self.arrays = arrays or {}
        self.checked = 0

    def module(self, name):
        import importlib
        return importlib.import_module(name)

    def int(self, name, lo, hi, small=None):
        v = self.values.get(name)
        if v is None:
            v = self.random.randint(max(lo, -20), min(hi, 20)) if max(lo, -20) <= min(hi, 20) else lo
        if not lo <= v <= hi:
            raise Skip(f"{name}={v} outside [{lo}, {hi}]")
        return v

    def real(self, name, lo=None, hi=None, np=False):
        v = self.values.get(name)
        if v is None:
            v = self.random.uniform(-10.0 if lo is None else lo, 10.0 if hi is None else hi)
        v = float(v)
        return numpy.float64(v) if np else v

    def texts(self, forms=files.FORMS):
        self.scale = {"plain": 1.0, "long": 1.0 + 2.0 ** -40, "small": 1e-7, "large": 1e20}[self.choice("number format", forms)]

    def number(self, name, lo=-10, hi=10):
        return self.real(name, lo, hi, np=True) * self.scale

    def bool(self, name):
        v = self.values.get(name)
        return bool(self.random.getrandbits(1)) if v is None else bool(v)

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def function(self, name, n, *parameters, lo=None, hi=None):
        lo, hi = -1.0 if lo is None else lo, 1.0 if hi is None else hi
        x = sum((k + 1.0) * float(p) for k, p in enumerate(parameters)) + len(name) + 0.37 * n
        return lo + (hi - lo) * numpy.modf(1.0 + numpy.abs(numpy.sin(12.9898 * numpy.arange(n) + x) * 43758.5453))[0]

    def array(self, name, shape, dtype="f8", lo=None, hi=None):
        shape = tuple(int(s) for s in shape)
        if any(s < 0 for s in shape):
            raise Skip("negative size")
        if numpy.prod([float(s) for s in shape]) > 2e6:
            raise Skip("too large to run concretely")
        given = self.arrays.get(name)
        dt = numpy.dtype(dtype)
        if given is not None:
            a = numpy.array(given, dtype=dt)
            if a.shape == shape:
                return a
        a = self.nrandom.uniform(-1.0 if lo is None else lo, 1.0 if hi is None else hi, size=shape)
        if dt.kind == "c":
            a = a + 1j * self.nrandom.uniform(-1.0 if lo is None else lo, 1.0 if hi is None else hi, size=shape)
        if dt.kind in "iu":
            a = numpy.round(a * 10)
        return a.astype(dt)

    def assume(self, cond):
        if not bool(cond):
            raise Skip("assumption")

    def concrete(self, x):
        return int(x)

    def shape(self, a):
        return tuple(a.shape)

    def at(self, a, *idx):
        for i, n in zip(idx, a.shape):
            if not 0 <= i < n:
                raise CheckFailed(f"index {idx} outside of shape {a.shape}")
        return a[tuple(idx)]

    def same(self, a, b):
        return _close(a, b)

    def identical(self, a, b):
        return bool(a == b)

    def close(self, a, b, tol=1e-6):
        return bool(numpy.isclose(a, b, rtol=1e-6, atol=max(tol, 1e-9), equal_nan=True)) or _close(a, b)

    def equal(self, a, b):
        return self.close(a, b)

    def near(self, a, b, scale, tol=1e-9):
        d = a - b
        return bool(abs(d.real) <= tol * scale and abs(d.imag) <= tol * scale)

    def require(self, cond, label):
        self.checked += 1
        if not bool(cond):
            raise CheckFailed(label)

    def forall(self, dims, fn, label):
        n = 1
        for d in dims:
            n *= max(int(d), 0)
        if n > 300000:
            rng = random.Random(1)
            it = (tuple(rng.randrange(int(d)) for d in dims) for _ in range(300000))
        else:
            it = numpy.ndindex(*[max(int(d), 0) for d in dims])
        end = time.time() + 15
        for idx in it:
            if time.time() > end:
                break
            idx = tuple(int(i) for i in idx)
            self.checked += 1
            if not bool(fn(*idx)):
                raise CheckFailed(f"{label} at {idx}")

    def fail(self, label):
        raise CheckFailed(label)


def _close(a, b):
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return a == b
    try:
        if a == b:
            return True
        if a != a and b != b:
            return True
        d = abs(a - b)
        return bool(d <= 1e-9 * max(abs(a), abs(b), 1e-3))
    except TypeError:
        return False
