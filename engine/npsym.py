"""The numpy module as the code under test sees it in the symbolic-shape encoding."""
import sys
import types

import numpy

from . import core
from .core import (SymInt, SymReal, SymBool, SymComplex, Unsupported, ite, b_and, b_or, b_not, is_sym, real as to_real, uf, unary)
from .loader import real_type, SymRange
from .symarray import SymArray, norm_dtype, cast, broadcast, bread, same, _has_sym, reduce_array, _small

z3 = core.z3


# --------------------------------------------------------------------------- element functions
def _neg(a):
    return -a


def _abs(a):
    if isinstance(a, SymComplex) or isinstance(a, (int, float, complex)):
        return abs(a)
    return abs(a)


def _conj(a):
    return a.conjugate() if not isinstance(a, (int, float)) else a


ELEMENT = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "true_divide": lambda a, b: _divide(a, b),
    "divide": lambda a, b: _divide(a, b),
    "mod": lambda a, b: uf("mod", a, b) if not (isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt))) else a % b,
    "power": lambda a, b: core.power(a, b) if (is_sym(a) or is_sym(b)) else a ** b,
    "floor_divide": lambda a, b: a // b,
    "minimum": core.sym_min,
    "maximum": core.sym_max,
    "negative": _neg,
    "positive": lambda a: a,
    "absolute": _abs,
    "fabs": _abs,
    "conjugate": _conj,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "logical_and": lambda a, b: b_and(a, b),
    "logical_or": lambda a, b: b_or(a, b),
    "logical_not": lambda a: b_not(a),
    "bitwise_and": lambda a, b: b_and(a, b) if isinstance(a, (bool, SymBool)) else a & b,
    "bitwise_or": lambda a, b: b_or(a, b) if isinstance(a, (bool, SymBool)) else a | b,
    "bitwise_xor": lambda a, b: a ^ b,
    "invert": lambda a: b_not(a) if isinstance(a, (bool, SymBool)) else ~a,
    "square": lambda a: a * a,
    "reciprocal": lambda a: _divide(1.0, a),
    "arctan2": lambda a, b: uf("arctan2", a, b),
    "hypot": lambda a, b: unary("sqrt", a * a + b * b),
    "isnan": lambda a: False if is_sym(a) else bool(numpy.isnan(a)),
    "isinf": lambda a: False if is_sym(a) else bool(numpy.isinf(a)),
    "isfinite": lambda a: True if is_sym(a) else bool(numpy.isfinite(a)),
    "floor": lambda a: to_real(a).floor(),
    "ceil": lambda a: to_real(a).ceil(),
    "rint": lambda a: to_real(a).rint(),
    "sign": lambda a: ite(a > 0, 1.0, ite(a < 0, -1.0, 0.0)),
    "deg2rad": lambda a: a * (numpy.pi / 180.0),
}


def _divide(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(a, SymComplex) or isinstance(b, SymComplex) or isinstance(a, complex) or isinstance(b, complex):
            return SymComplex.of(a) / b
        a = to_real(a, True)
        b = to_real(b, True)
        return core._div(a, b, True)
    with numpy.errstate(all="ignore"):
        return numpy.true_divide(a, b).item()


for _n in core.UNARY_UF:
    if _n not in ELEMENT:
        ELEMENT[_n] = (lambda n: lambda a: unary(n, a) if is_sym(a) else getattr(numpy, n)(a).item())(_n)


class Ufunc:
    def __init__(self, name):
        self.name = name
        self.__name__ = name
        self.real = getattr(numpy, name)
        self.nin = self.real.nin
        self.element = ELEMENT[name]

    def __repr__(self):
        return f"<ufunc {self.name}>"

    def __call__(self, *args, **kwargs):
        out = kwargs.pop("out", None)
        where_ = kwargs.pop("where", True)
        dtype = kwargs.pop("dtype", None)
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if isinstance(out, tuple):
            out = out[0]
        if any(a is None or isinstance(a, (str, bytes, dict, set)) for a in args):
            return self.real(*args)
        for a in args:
            if type(a).__module__.startswith("sumpf") and getattr(type(a), "__array_ufunc__", 0) is None:
                raise TypeError(f"operand '{type(a).__name__}' does not support ufuncs (__array_ufunc__=None)")
            if type(a).__module__.startswith("sumpf") and hasattr(a, "__getitem__") and hasattr(a, "__len__"):
                raise MemoryError("numpy converts an object, whose items are again sequences, to an array")
            if not (is_sym(a) or isinstance(a, (SymArray, SymRange, numpy.ndarray, numpy.generic, int, float, complex, list, tuple))):
                raise TypeError(f"ufunc '{self.name}' not supported for the input types")
        if not _has_sym(args) and not isinstance(out, SymArray) and not any(isinstance(a, SymRange) for a in args):
            if out is not None:
                kwargs["out"] = out
            return self.real(*args, **kwargs)
        if where_ is not True:
            raise Unsupported("where= of a ufunc")
        if not isinstance(out, (SymArray, type(None))):
            raise Unsupported("a symbolic result written to a concrete array")
        scalar = all(is_sym(a) or isinstance(a, (int, float, complex, numpy.generic)) for a in args) and out is None
        if scalar:
            args = [a.item() if isinstance(a, numpy.generic) else a for a in args]
            r = self.element(*args)
            if isinstance(r, SymReal):
                r = SymReal(r.p, True)
            return r
        # result type and type errors as numpy decides them
        probes = []
        for a in args:
            if isinstance(a, SymArray):
                probes.append(numpy.zeros((0,) if a.ndim else (), a.dtype) if a.ndim else numpy.zeros((), a.dtype)[()])
            elif is_sym(a):
                probes.append({SymInt: 1, SymReal: 1.0, SymBool: True, SymComplex: 1j}[type(a)])
            else:
                probes.append(a)
        probes = [p if not isinstance(p, (list, tuple, numpy.ndarray)) or numpy.shape(p) == () or numpy.size(p) == 0
                  else numpy.zeros((0,), numpy.asarray(p).dtype) if not _has_sym(p) else numpy.zeros((0,), numpy.float64) for p in probes]
        pk = {}
        if dtype is not None:
            pk["dtype"] = norm_dtype(dtype)
        with numpy.errstate(all="ignore"):
            if out is not None:
                oa = numpy.zeros((0,) if out.ndim else (), out.dtype)
                if out.ndim and any(numpy.ndim(p) for p in probes) or not out.ndim:
                    self.real(*probes, out=oa, **pk)
                else:
                    self.real(*probes, out=oa, **pk)
                rdtype = out.dtype
            else:
                rdtype = numpy.asarray(self.real(*probes, **pk)).dtype
        ops = [SymArray.from_any(a) for a in args]
        shapes = [o._shape for o in ops]
        if out is not None:
            shape, flags = broadcast(shapes + [out._shape])
            for k, n in enumerate(shape):
                off = len(shape) - out.ndim
                if k < off or (not same(n, out._shape[k - off]) and not bool(n == out._shape[k - off])):
                    raise ValueError("non-broadcastable output operand with shape doesn't match the broadcast shape")
        else:
            shape, flags = broadcast(shapes)
        # an axis that is concretely of size one after a fork is read at index zero
        readers = [bread(o.snapshot(), f, o.ndim) for o, f in zip(ops, flags)]
        element = self.element

        def fn(idx):
            return element(*(r(idx) for r in readers))
        if out is not None:
            out.write(fn)
            return out
        if not shape:
            r = cast(fn(()), rdtype)
            return r
        return SymArray.new(shape, rdtype, lambda idx: cast(fn(idx), rdtype))

    def reduce(self, array, axis=0, **kwargs):
        if not _has_sym(array):
            return self.real.reduce(array, axis=axis, **kwargs)
        a = SymArray.from_any(array)
        init = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False}.get(self.name)
        return reduce_array(a, self.element, axis, kwargs.get("keepdims", False), init)

    def outer(self, a, b):
        a, b = SymArray.from_any(a), SymArray.from_any(b)
        return self(a[(Ellipsis,) + (None,) * b.ndim], b)

    def accumulate(self, array, axis=0):
        if not _has_sym(array):
            return self.real.accumulate(array, axis=axis)
        raise Unsupported("ufunc.accumulate")


for _n in list(ELEMENT):
    globals()[_n] = Ufunc(_n)
PUB = {"abs": globals()["absolute"], "conj": globals()["conjugate"], "remainder": globals()["mod"]}


def _cplx_part(which):
    def f(a):
        if not _has_sym(a):
            return getattr(numpy, which)(a)
        if is_sym(a):
            return _part(which, a, isinstance(a, SymComplex))
        a = SymArray.from_any(a)
        src = a.snapshot()
        if a.dtype.kind != "c":
            if which == "real":
                return a
            if which == "imag":
                return SymArray.const(a._shape, a.dtype, 0.0)
        return SymArray.new(a._shape, numpy.float64, lambda idx: _part(which, src(idx), True))
    f.__name__ = which
    return f


def _part(which, v, is_complex):
    if isinstance(v, SymComplex):
        return {"real": v.re, "imag": v.im}.get(which) if which != "angle" else uf("angle", v.re, v.im)
    if isinstance(v, (int, float, complex)):
        return getattr(numpy, which)(numpy.asarray(v)).item()
    if not is_complex:
        return v if which == "real" else 0.0
    return uf("opaque_" + which, v)


real = _cplx_part("real")
imag = _cplx_part("imag")
angle = _cplx_part("angle")


# --------------------------------------------------------------------------- creation
def _active():
    return core.Ctx.current is not None


def _shape(shape):
    if isinstance(shape, (int, SymInt, numpy.integer)):
        shape = (shape,)
    r = []
    for s in shape:
        if isinstance(s, numpy.integer):
            s = int(s)
        if isinstance(s, (float, SymReal)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        r.append(s)
    for s in r:
        if s < 0:
            raise ValueError("negative dimensions are not allowed")
    return tuple(r)


def empty(shape, dtype=None, order="C"):
    if not _active():
        return numpy.empty(shape, norm_dtype(dtype))
    shape = _shape(shape)
    dt = norm_dtype(dtype)
    c = core.ctx()
    f = c.fresh("garbage", z3.IntSort())
    g = z3.Function(f.decl().name() + "_fn", *([z3.IntSort()] * len(shape)), z3.RealSort())

    def fn(idx):
        v = SymReal.atom(g(*(core.zint(i) for i in idx)), True) if shape else SymReal.atom(z3.ToReal(f), True)
        return v.__floor__() if dt.kind in "iu" else v
    return SymArray.new(shape, dt, fn)


def full(shape, fill_value, dtype=None, order="C"):
    if not _active():
        return numpy.full(shape, fill_value, None if dtype is None else norm_dtype(dtype))
    if dtype is None:
        dtype = SymArray.from_any(fill_value).dtype
    fill_value = SymArray.from_any(fill_value)
    a = SymArray.const(_shape(shape), norm_dtype(dtype), 0)
    a[...] = fill_value
    return a


def zeros(shape, dtype=None, order="C"):
    if not _active():
        return numpy.zeros(shape, norm_dtype(dtype))
    return SymArray.const(_shape(shape), norm_dtype(dtype), 0 if norm_dtype(dtype).kind in "iu" else (False if norm_dtype(dtype).kind == "b" else 0.0))


def ones(shape, dtype=None, order="C"):
    if not _active():
        return numpy.ones(shape, norm_dtype(dtype))
    return SymArray.const(_shape(shape), norm_dtype(dtype), 1 if norm_dtype(dtype).kind in "iu" else 1.0)


def empty_like(a, dtype=None, shape=None):
    return empty(a.shape if shape is None else shape, a.dtype if dtype is None else dtype)


def zeros_like(a, dtype=None, shape=None):
    return zeros(a.shape if shape is None else shape, a.dtype if dtype is None else dtype)


def ones_like(a, dtype=None, shape=None):
    return ones(a.shape if shape is None else shape, a.dtype if dtype is None else dtype)


def full_like(a, fill_value, dtype=None):
    return full(a.shape, fill_value, a.dtype if dtype is None else dtype)


def array(x, dtype=None, copy=True, **kwargs):
    if isinstance(x, SymRange):
        return SymArray.from_any(x, None if dtype is None else norm_dtype(dtype))
    if not _has_sym(x):
        return numpy.array(x, None if dtype is None else norm_dtype(dtype))
    a = SymArray.from_any(x)
    return a.copy() if dtype is None else a.astype(dtype)


def asarray(x, dtype=None, **kwargs):
    if isinstance(x, SymArray):
        return x if dtype is None or norm_dtype(dtype) == x.dtype else x.astype(dtype)
    return array(x, dtype)


ascontiguousarray = asarray
asanyarray = asarray


def copy(a):
    return a.copy() if isinstance(a, SymArray) else numpy.copy(a)


def arange(*args, dtype=None):
    if not any(is_sym(a) for a in args):
        return numpy.arange(*args, dtype=None if dtype is None else norm_dtype(dtype))
    start, stop, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], 1) if len(args) == 2 else args
    if any(isinstance(a, (float, SymReal)) for a in (start, stop, step)):
        raise Unsupported("arange with floats")
    r = SymRange(start, stop, step)
    a = SymArray.from_any(r)
    return a if dtype is None else a.astype(dtype)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    if not any(is_sym(a) for a in (start, stop, num)):
        return numpy.linspace(start, stop, num, endpoint=endpoint, dtype=None if dtype is None else norm_dtype(dtype))
    if num < 0:
        raise ValueError(f"Number of samples, {num}, must be non-negative.")
    div = num - 1 if endpoint else num
    cplx = any(isinstance(a, (complex, SymComplex)) for a in (start, stop))
    dt = norm_dtype(dtype, numpy.complex128 if cplx else numpy.float64)

    def fn(idx):
        i = idx[0]
        if isinstance(div, int) and div <= 0:
            return cast(start if is_sym(start) else float(start), dt)
        d = to_real(div)
        span = stop - start
        w = core.SymReal(core.pmul(to_real(i).p, d.reciprocal().p), True) if is_sym(d) and d.const() is None else to_real(i, True) / d.const()
        v = start + span * w
        if not cplx and is_sym(d) and d.const() is None:
            reduced = core.cancel(to_real(v).p, d)
            if reduced is not None:
                # the step does not depend on the number of samples, so that the last value is the stop anyway
                return cast(core.SymReal(reduced, True), dt)
        # numpy sets the last value to stop exactly, with a single value it is start
        if endpoint:
            v = ite(i == div, ite(to_real(div) == 0, _c(start), _c(stop)), v)
        return cast(v, dt)
    return SymArray.new((num,), dt, fn)


def _c(x):
    return x if is_sym(x) else (x if isinstance(x, complex) else float(x))


class RawBuf:
    def __init__(self, itemsize, size):
        self.nbytes = size * itemsize

    def __symlen__(self):
        return self.nbytes


def RawArray(ctype, size_or_init, **kwargs):
    import ctypes
    if not _active():
        from multiprocessing import sharedctypes
        return sharedctypes.RawArray(ctype, size_or_init)
    if isinstance(size_or_init, (int, SymInt, numpy.integer)):
        if size_or_init < 0:
            raise ValueError("Array length must be >= 0")
        return RawBuf(ctypes.sizeof(ctype), size_or_init)
    raise Unsupported("RawArray from a sequence")


def frombuffer(buffer, dtype=None, count=-1, offset=0):
    if isinstance(buffer, RawBuf):
        dt = norm_dtype(dtype)
        n = buffer.nbytes
        if not (isinstance(count, int) and count == -1):
            if count * dt.itemsize > n:
                raise ValueError("buffer is smaller than requested size")
            n = count * dt.itemsize
        if n % dt.itemsize != 0:
            raise ValueError("buffer size must be a multiple of element size")
        return SymArray.const((n // dt.itemsize,), dt, 0 if dt.kind in "iu" else 0.0)
    return numpy.frombuffer(buffer, norm_dtype(dtype), count, offset)


# --------------------------------------------------------------------------- shape functions
def shape(a):
    if isinstance(a, SymArray):
        return a.shape
    if _has_sym(a):
        return SymArray.from_any(a).shape
    return numpy.shape(a)


def ndim(a):
    return len(shape(a))


def size(a, axis=None):
    s = shape(a)
    if axis is not None:
        return s[axis]
    return prod(s)


def prod(a, axis=None, dtype=None, **kwargs):
    if isinstance(a, (tuple, list)) and not any(isinstance(i, SymArray) for i in a) and _has_sym(a):
        r = 1
        for i in a:
            r = r * i
        return r
    if isinstance(a, SymArray):
        return a.prod(axis)
    return numpy.prod(a, axis=axis)


def transpose(a, axes=None):
    return a.transpose(axes) if isinstance(a, SymArray) else numpy.transpose(a, axes)


def swapaxes(a, b, c):
    return a.swapaxes(b, c)


def reshape(a, newshape, order="C"):
    return SymArray.from_any(a).reshape(newshape) if _has_sym(a) or _has_sym(newshape) else numpy.reshape(a, newshape)


def ravel(a, order="C"):
    return SymArray.from_any(a).ravel() if _has_sym(a) else numpy.ravel(a)


def expand_dims(a, axis):
    if axis < 0:
        axis += a.ndim + 1
    return a[tuple([slice(None)] * axis + [None])]


def squeeze(a, axis=None):
    if not isinstance(a, SymArray):
        return numpy.squeeze(a, axis)
    key = []
    for k, n in enumerate(a.shape):
        if (axis is None and isinstance(n, int) and n == 1) or axis == k:
            key.append(0)
        else:
            key.append(slice(None))
    return a[tuple(key)]


def broadcast_to(a, shape, **kwargs):
    a = SymArray.from_any(a)
    sh = _shape(shape)
    out, flags = broadcast([a._shape, sh])
    return SymArray.new(sh, a.dtype, bread(a.snapshot(), flags[0], a.ndim))


def copyto(dst, src, **kwargs):
    if kwargs.get("where", True) is not True:
        m = SymArray.from_any(kwargs["where"])
        _, flags = broadcast([dst._shape, SymArray.from_any(src)._shape, m._shape])
        old, s, mm = dst.snapshot(), SymArray.from_any(src), m
        rs, rm = bread(s.snapshot(), flags[1], s.ndim), bread(mm.snapshot(), flags[2], mm.ndim)
        dst.write(lambda idx: ite(rm(idx), rs(idx), old(idx)))
        return
    dst[...] = src


def concatenate(arrays, axis=0, out=None, dtype=None):
    arrays = list(arrays)
    if not _has_sym(arrays):
        return numpy.concatenate(arrays, axis=axis)
    arrays = [SymArray.from_any(a) for a in arrays]
    if axis < 0:
        axis += arrays[0].ndim
    total = 0
    bounds = []
    for a in arrays:
        if a.ndim != arrays[0].ndim:
            raise ValueError("all the input array dimensions must match")
        for k in range(a.ndim):
            if k != axis and not same(a._shape[k], arrays[0]._shape[k]) and not bool(a._shape[k] == arrays[0]._shape[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
        bounds.append(total)
        total = total + a._shape[axis]
    dt = numpy.result_type(*(a.dtype for a in arrays))
    srcs = [a.snapshot() for a in arrays]

    def fn(idx):
        r = srcs[-1](idx[:axis] + (idx[axis] - bounds[-1],) + idx[axis + 1:])
        for k in range(len(srcs) - 2, -1, -1):
            r = ite(idx[axis] < bounds[k + 1], srcs[k](idx[:axis] + (idx[axis] - bounds[k],) + idx[axis + 1:]), r)
        return cast(r, dt)
    sh = arrays[0]._shape[:axis] + (total,) + arrays[0]._shape[axis + 1:]
    res = SymArray.new(sh, dt, fn)
    if out is not None:
        out[...] = res
        return out
    return res


def hstack(arrays):
    arrays = [SymArray.from_any(a) for a in arrays]
    return concatenate(arrays, axis=0 if arrays[0].ndim == 1 else 1)


def vstack(arrays):
    arrays = [SymArray.from_any(a) for a in arrays]
    return concatenate([a if a.ndim > 1 else a[None] for a in arrays], axis=0)


def stack(arrays, axis=0):
    arrays = [SymArray.from_any(a) for a in arrays]
    return concatenate([expand_dims(a, axis) for a in arrays], axis=axis)


def where(cond, a=None, b=None):
    if a is None:
        raise Unsupported("where() with one argument")
    if not _has_sym((cond, a, b)):
        return numpy.where(cond, a, b)
    cs, as_, bs = (SymArray.from_any(x) for x in (cond, a, b))
    sh, flags = broadcast([cs._shape, as_._shape, bs._shape])
    rc, ra, rb = (bread(x.snapshot(), f, x.ndim) for x, f in zip((cs, as_, bs), flags))
    dt = numpy.result_type(as_.dtype, bs.dtype)
    fn = lambda idx: cast(ite(rc(idx) if not isinstance(rc(idx), (SymInt, SymReal)) else rc(idx) != 0, ra(idx), rb(idx)), dt)
    return fn(()) if not sh else SymArray.new(sh, dt, fn)


def flip(a, axis=None):
    if not isinstance(a, SymArray):
        return numpy.flip(a, axis)
    if axis is None:
        return a[tuple(slice(None, None, -1) for _ in a.shape)]
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = [x + a.ndim if x < 0 else x for x in axes]
    return a[tuple(slice(None, None, -1) if k in axes else slice(None) for k in range(a.ndim))]


def fliplr(a):
    return flip(a, 1)


def flipud(a):
    return flip(a, 0)


def roll(a, shift, axis=None):
    if not _has_sym((a, shift)):
        return numpy.roll(a, shift, axis)
    a = SymArray.from_any(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll of a flattened array")
        axis = 0
    if axis < 0:
        axis += a.ndim
    n = a._shape[axis]
    if n == 0:
        return a.copy()
    s = shift % n
    src = a.snapshot()

    def fn(idx):
        i = idx[axis] - s
        return src(idx[:axis] + (ite(i < 0, i + n, i),) + idx[axis + 1:])
    return SymArray.new(a._shape, a.dtype, fn)


def pad(a, pad_width, mode="constant", constant_values=0, **kwargs):
    if not _has_sym((a, pad_width)):
        return numpy.pad(a, pad_width, mode, constant_values=constant_values)
    if mode != "constant":
        raise Unsupported("pad mode")
    a = SymArray.from_any(a)
    if isinstance(pad_width, (int, SymInt)):
        pad_width = ((pad_width, pad_width),) * a.ndim
    pad_width = list(pad_width)
    if len(pad_width) == 2 and not isinstance(pad_width[0], (tuple, list)):
        pad_width = [tuple(pad_width)] * a.ndim
    if len(pad_width) == 1:
        pad_width = pad_width * a.ndim
    r = full(tuple(n + p[0] + p[1] for n, p in zip(a._shape, pad_width)), constant_values, a.dtype)
    r[tuple(slice(p[0], p[0] + n) for n, p in zip(a._shape, pad_width))] = a
    return r


def repeat(a, repeats, axis=None):
    a = SymArray.from_any(a)
    if axis is None and a.ndim <= 1:
        axis = 0
        a = a if a.ndim else a.reshape(1)
    if axis is not None and (isinstance(a._shape[axis], int) and a._shape[axis] == 1):
        src = a.snapshot()
        sh = a._shape[:axis] + (repeats,) + a._shape[axis + 1:]
        return SymArray.new(sh, a.dtype, lambda idx: src(idx[:axis] + (0,) + idx[axis + 1:]))
    raise Unsupported("repeat")


def tile(a, reps):
    a = SymArray.from_any(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    while a.ndim < len(reps):
        a = a[None]
    src = a.snapshot()
    sh = tuple(n * r for n, r in zip(a._shape, reps))

    def fn(idx):
        return src(tuple(i if isinstance(r, int) and r == 1 else (0 if isinstance(n, int) and n == 1 else i % n)
                         for i, n, r in zip(idx, a._shape, reps)))
    return SymArray.new(sh, a.dtype, fn)


# --------------------------------------------------------------------------- reductions
def _red(name):
    def f(a, axis=None, **kwargs):
        if not _has_sym(a):
            return getattr(numpy, name)(a, axis=axis, **kwargs)
        kwargs.pop("dtype", None)
        return getattr(SymArray.from_any(a), name.replace("amin", "min").replace("amax", "max"))(axis, **kwargs)
    f.__name__ = name
    return f


for _n in ("sum", "any", "all", "min", "max", "amin", "amax", "mean"):
    PUB[_n] = _red(_n)


def array_equal(a, b):
    a, b = SymArray.from_any(a), SymArray.from_any(b)
    if a.ndim != b.ndim:
        return False
    for p, q in zip(a._shape, b._shape):
        if not same(p, q) and not bool(p == q):
            return False
    return (a == b).all()


def isscalar(x):
    return is_sym(x) or numpy.isscalar(x)


def clip(a, a_min=None, a_max=None, out=None):
    if not _has_sym((a, a_min, a_max)):
        return numpy.clip(a, a_min, a_max, out=out)
    r = a
    if a_min is not None:
        r = globals()["maximum"](r, a_min)
    if a_max is not None:
        r = globals()["minimum"](r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


def iscomplexobj(a):
    return a.dtype.kind == "c" if isinstance(a, SymArray) else numpy.iscomplexobj(a)


def result_type(*args):
    return numpy.result_type(*(a.dtype if isinstance(a, SymArray) else real_type(a) for a in args))


def dtype(x):
    return numpy.dtype(real_type(x))


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymArray, numpy.ndarray))


class ndarray(metaclass=_NDMeta):
    pass


def _unsupported(path):
    real_obj = numpy
    for p in path.split("."):
        real_obj = getattr(real_obj, p)
    if not callable(real_obj) or isinstance(real_obj, type):
        return real_obj

    def f(*args, **kwargs):
        if _has_sym(list(args)) or _has_sym(list(kwargs.values())) or any(isinstance(a, SymRange) for a in args):
            raise Unsupported(f"numpy.{path}")
        return real_obj(*args, **kwargs)
    f.__name__ = path
    return f


class _Sub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _unsupported(self.__name__.partition(".")[2] + "." + name)


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        sub = getattr(numpy, name)
        if isinstance(sub, types.ModuleType):
            m = _Sub("numpy." + name)
            setattr(self, name, m)
            return m
        return _unsupported(name)


def make_module():
    m = _Module("numpy")
    skip = {"make_module", "core", "types", "sys", "z3", "numpy", "PUB", "ELEMENT"}
    for k, v in list(globals().items()):
        if not k.startswith("_") and k not in skip:
            m.__dict__[k] = v
    m.__dict__.update(PUB)
    m.__dict__["dtype"] = dtype
    m.__dict__["newaxis"] = None
    return m


def sharedctypes_module():
    m = types.ModuleType("multiprocessing.sharedctypes")
    from multiprocessing import sharedctypes
    m.__dict__.update(vars(sharedctypes))
    m.RawArray = RawArray
    m.Array = lambda t, n, **k: RawArray(t, n)
    return m
