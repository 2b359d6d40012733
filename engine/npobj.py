"""The numpy module as the code under test sees it in the concrete-shape encoding.

Real numpy runs on arrays whose elements are symbolic; sizes, offsets and indices
become concrete by solver-enumerated case splits, the element values stay symbolic.
"""
import ctypes
import math
import types

import numpy

from . import core
from .core import SymInt, SymReal, SymBool, SymComplex, Unsupported, is_sym, real as to_real, Fraction
from .loader import real_type, SymRange
from .npsym import ELEMENT, _part

z3 = core.z3
_COMPARE = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
            "logical_not", "isnan", "isinf", "isfinite"}
_PYFUNC = {}


def _pyfunc(name):
    f = _PYFUNC.get(name)
    if f is None:
        e = ELEMENT[name]
        if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "isnan", "isinf", "isfinite",
                    "logical_and", "logical_or", "logical_not"):
            e2 = lambda *a: bool(e(*(_py(x) for x in a)))
        else:
            e2 = lambda *a: e(*(_py(x) for x in a))
        f = numpy.frompyfunc(e2, getattr(numpy, name).nin, 1)
        _PYFUNC[name] = f
    return f


def _py(x):
    return x.item() if isinstance(x, numpy.generic) else x


class OA(numpy.ndarray):
    """an object array of symbolic elements"""
    __array_priority__ = 3000

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        name = ufunc.__name__
        name = {"divide": "true_divide", "remainder": "mod"}.get(name, name)
        for i in inputs:
            if i is None or isinstance(i, (str, bytes, dict)):
                raise TypeError(f"ufunc {name!r} did not contain a loop with signature matching types")
        ins = [numpy.asarray(i).view(numpy.ndarray) if isinstance(i, OA) else i for i in inputs]
        outs = None
        if out is not None:
            outs = out[0]
        kwargs.pop("casting", None)
        kwargs.pop("order", None)
        kwargs.pop("subok", None)
        if name not in ELEMENT and name not in ("matmul",):
            raise Unsupported(f"numpy.{name} on symbolic elements")
        if method == "__call__":
            if name == "matmul":
                r = numpy.matmul(*ins)
                return _wrap(r)
            w = kwargs.pop("where", True)
            kwargs.pop("dtype", None)
            f = _pyfunc(name)
            if w is not True:
                # only the selected elements are computed, the others keep what was there
                shape = numpy.broadcast_shapes(numpy.shape(w), *(numpy.shape(i) for i in ins))
                w = numpy.broadcast_to(w, shape)
                parts = [numpy.broadcast_to(numpy.asarray(i, object), shape) for i in ins]
                if outs is None:
                    outs = empty(shape)
                for idx in numpy.ndindex(*shape):
                    if w[idx]:
                        outs[idx] = f(*(_py(p[idx]) for p in parts))
                return outs
            r = f(*ins)
            if name in _COMPARE:
                r = numpy.asarray(r, dtype=bool) if not isinstance(r, bool) else r
            if outs is not None:
                outs[...] = r
                return outs
            return _wrap(r)
        if method == "reduce":
            kwargs.pop("dtype", None)
            if name in ("logical_or", "logical_and"):
                arr = numpy.asarray([bool(x) for x in ins[0].ravel()], dtype=bool).reshape(ins[0].shape)
                return ufunc.reduce(arr, **{k: v for k, v in kwargs.items() if k in ("axis", "keepdims")})
            init = kwargs.pop("initial", None)
            w = kwargs.pop("where", True)
            if w is not True:
                raise Unsupported("where= of a reduction")
            a = ins[0]
            if a.size == 0 and name == "add":
                r = numpy.add.reduce(numpy.zeros(a.shape), **kwargs)
            elif a.size == 0 and name == "multiply":
                r = numpy.multiply.reduce(numpy.zeros(a.shape), **kwargs)
            else:
                r = _reduce(name, a, **kwargs)
            if outs is not None:
                outs[...] = r
                return outs
            return _wrap(r)
        if method == "accumulate":
            r = numpy.empty_like(ins[0])
            ax = kwargs.get("axis", 0)
            a = numpy.moveaxis(ins[0], ax, 0)
            o = numpy.moveaxis(r, ax, 0)
            f = _pyfunc(name)
            for i in range(len(a)):
                o[i] = a[i] if i == 0 else f(o[i - 1], a[i])
            if outs is not None:
                outs[...] = r
                return outs
            return _wrap(r)
        if method == "outer":
            a, b = numpy.asarray(ins[0]), numpy.asarray(ins[1])
            return _wrap(_pyfunc(name)(a.reshape(a.shape + (1,) * b.ndim), b))
        if method == "at":
            raise Unsupported("ufunc.at")
        raise Unsupported(f"ufunc method {method}")

    @property
    def real(self):
        return part("real", self)

    @real.setter
    def real(self, value):
        self[...] = _map(lambda v, x: SymComplex(_scal(x), core.SymComplex.of(v).im), self, value)

    @property
    def imag(self):
        return part("imag", self)

    @imag.setter
    def imag(self, value):
        self[...] = _map(lambda v, x: SymComplex(core.SymComplex.of(v).re, _scal(x)), self, value)

    def conj(self):
        return numpy.conjugate(self)

    conjugate = conj

    def astype(self, dtype, *args, **kwargs):
        dt = numpy.dtype(real_type(dtype))
        if dt.kind in "fc" or dt == object:
            return self.copy()
        if dt.kind in "iu":
            r = [_int(x) for x in numpy.ndarray.ravel(self)]
            r = numpy.array(r + [None], dtype=object)[:-1].reshape(self.shape)
            return _wrap(r)
        if dt.kind == "b":
            return numpy.array([bool(x) for x in numpy.ndarray.ravel(self)], dtype=bool).reshape(self.shape)
        raise Unsupported(f"astype {dt}")

    def tolist(self):
        plain = lambda x: [plain(i) for i in x] if isinstance(x, list) else _py(x)
        return plain(numpy.ndarray.tolist(self))

    def clip(self, *args, **kwargs):
        return clip(self, *args, **kwargs)

    def min(self, axis=None, **kw):
        return _wrap(_reduce("minimum", self.view(numpy.ndarray), axis=axis, **kw))

    def max(self, axis=None, **kw):
        return _wrap(_reduce("maximum", self.view(numpy.ndarray), axis=axis, **kw))

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return numpy.true_divide(self.sum(axis=axis), n) if axis is not None else _py(self.sum()) / n

    def tobytes(self, *args):
        raise Unsupported("bytes of a symbolic array")

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(self.item())


def _scal(x):
    return x


def _map(f, a, b):
    return numpy.frompyfunc(f, 2, 1)(a.view(numpy.ndarray), b.view(numpy.ndarray) if isinstance(b, OA) else b)


def _int(x):
    if isinstance(x, SymReal):
        return x.__trunc__()
    return int(x) if not is_sym(x) else x


def _reduce(name, a, axis=0, keepdims=False, **kwargs):
    f = ELEMENT[name]
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        elif len(axis) == 1:
            axis = axis[0]
        else:
            r = a
            for k in sorted((x % a.ndim for x in axis), reverse=True):
                r = _reduce(name, r, axis=k, keepdims=keepdims)
            return r
    if axis is None:
        items = [_py(x) for x in a.ravel()]
        if not items:
            raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
        r = items[0]
        for i in items[1:]:
            r = f(r, i)
        if keepdims:
            o = numpy.empty((1,) * a.ndim, object)
            o[...] = r
            return o
        return r
    m = numpy.moveaxis(a, axis, 0)
    if m.shape[0] == 0:
        raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
    g = numpy.frompyfunc(lambda x, y: f(_py(x), _py(y)), 2, 1)
    r = m[0]
    for i in range(1, m.shape[0]):
        r = g(r, m[i])
    if keepdims:
        r = numpy.expand_dims(r, axis)
    return r


def _wrap(r):
    if isinstance(r, numpy.ndarray) and r.dtype == object:
        return r.view(OA)
    return r


def has_sym(x):
    if isinstance(x, OA):
        return True
    if isinstance(x, numpy.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return is_sym(x)


def part(which, a):
    if not has_sym(a):
        return getattr(numpy, which)(a)
    if is_sym(a):
        return _part(which, a, isinstance(a, SymComplex))
    f = numpy.frompyfunc(lambda v: _part(which, _py(v), isinstance(v, SymComplex)), 1, 1)
    r = f(numpy.asarray(a).view(numpy.ndarray))
    if not isinstance(r, numpy.ndarray):
        o = numpy.empty((), object)
        o[()] = r
        r = o
    return _wrap(r)


def _active():
    return core.Ctx.current is not None


def _cshape(shape):
    if isinstance(shape, (int, SymInt, numpy.integer)):
        shape = (shape,)
    r = []
    for s in shape:
        if isinstance(s, (float, SymReal)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        r.append(s.__index__())
    return tuple(r)


def _dtype(dtype, default=numpy.float64):
    return numpy.dtype(default if dtype is None else real_type(dtype))


def _symbolic_kind(dt):
    return dt.kind in "fc" or dt == object


def empty(shape, dtype=None, order="C"):
    dt = _dtype(dtype)
    if not _active() or not _symbolic_kind(dt):
        return numpy.empty(_cshape(shape), dt)
    a = numpy.empty(_cshape(shape), object)
    base = core.ctx().fresh("garbage", z3.IntSort()).decl().name()
    for n, i in enumerate(numpy.ndindex(*a.shape)):
        a[i] = SymReal.atom(z3.Real(f"{base}_{n}"), True)
    return a.view(OA)


def full(shape, fill_value, dtype=None, order="C"):
    if not _active():
        return numpy.full(shape, fill_value, None if dtype is None else _dtype(dtype))
    dt = None if dtype is None else _dtype(dtype)
    if not has_sym(fill_value) and dt is not None and not _symbolic_kind(dt):
        return numpy.full(_cshape(shape), fill_value, dt)
    if not has_sym(fill_value) and dt is None and numpy.asarray(fill_value).dtype.kind in "iub":
        return numpy.full(_cshape(shape), fill_value)
    a = numpy.empty(_cshape(shape), object)
    a[...] = fill_value
    return a.view(OA)


def zeros(shape, dtype=None, order="C"):
    dt = _dtype(dtype)
    if not _active() or not _symbolic_kind(dt):
        return numpy.zeros(_cshape(shape), dt)
    return full(shape, 0.0, object)


def ones(shape, dtype=None, order="C"):
    dt = _dtype(dtype)
    if not _active() or not _symbolic_kind(dt):
        return numpy.ones(_cshape(shape), dt)
    return full(shape, 1.0, object)


def empty_like(a, dtype=None, shape=None):
    return empty(numpy.shape(a) if shape is None else shape, numpy.asarray(a).dtype if dtype is None else dtype)


def zeros_like(a, dtype=None, shape=None):
    return zeros(numpy.shape(a) if shape is None else shape, numpy.asarray(a).dtype if dtype is None else dtype)


def ones_like(a, dtype=None, shape=None):
    return ones(numpy.shape(a) if shape is None else shape, numpy.asarray(a).dtype if dtype is None else dtype)


def full_like(a, v, dtype=None):
    return full(numpy.shape(a), v, numpy.asarray(a).dtype if dtype is None else dtype)


def array(x, dtype=None, copy=True, **kwargs):
    if isinstance(x, SymRange):
        x = list(x)
    if has_sym(x):
        r = numpy.array(x, dtype=object)
        if dtype is not None and _dtype(dtype).kind in "iub":
            return _wrap(r).astype(dtype)
        return _wrap(r)
    if dtype is not None and not isinstance(x, numpy.ndarray):
        return numpy.array(x, dtype=_dtype(dtype))
    return numpy.array(x, dtype=None if dtype is None else _dtype(dtype))


def asarray(x, dtype=None, **kwargs):
    if isinstance(x, numpy.ndarray) and (dtype is None or x.dtype == _dtype(dtype) or (x.dtype == object and _symbolic_kind(_dtype(dtype)))):
        return x
    return array(x, dtype)


ascontiguousarray = asarray
asanyarray = asarray


def fromiter(it, dtype=None, count=-1):
    items = list(it)
    if has_sym(items):
        r = numpy.empty(len(items), object)
        for i, v in enumerate(items):
            r[i] = v
        return r.view(OA)
    return numpy.fromiter(items, _dtype(dtype), count)


def arange(*args, dtype=None):
    if any(is_sym(a) for a in args):
        if any(isinstance(a, (float, SymReal)) for a in args):
            raise Unsupported("arange with symbolic floats")
        args = [a.__index__() for a in args]
    return numpy.arange(*args, dtype=None if dtype is None else _dtype(dtype))


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    if isinstance(num, SymInt):
        num = num.__index__()
    start = start.item() if isinstance(start, numpy.ndarray) and start.shape == () else start
    stop = stop.item() if isinstance(stop, numpy.ndarray) and stop.shape == () else stop
    if not (has_sym(start) or has_sym(stop)):
        return numpy.linspace(start, stop, num, endpoint=endpoint, dtype=None if dtype is None else _dtype(dtype))
    if num < 0:
        raise ValueError(f"Number of samples, {num}, must be non-negative.")
    div = num - 1 if endpoint else num
    r = numpy.empty(num, object)
    start, stop = _py(start), _py(stop)
    for i in range(num):
        if div <= 0:
            r[i] = start
        elif endpoint and i == div:
            r[i] = stop
        else:
            r[i] = start + (stop - start) * Fraction(i, div) if not isinstance(start - stop, (SymComplex, complex)) else \
                SymComplex.of(start) + SymComplex(SymComplex.of(stop - start).re * Fraction(i, div), SymComplex.of(stop - start).im * Fraction(i, div))
    return r.view(OA)


class RawBuf:
    def __init__(self, itemsize, size):
        self.nbytes = size * itemsize


def RawArray(ctype, size, **kwargs):
    if not _active():
        from multiprocessing import sharedctypes
        return sharedctypes.RawArray(ctype, size)
    return RawBuf(ctypes.sizeof(ctype), size.__index__())


def frombuffer(buffer, dtype=None, count=-1, offset=0):
    if isinstance(buffer, RawBuf):
        dt = _dtype(dtype)
        isz = 8 if dt == object else dt.itemsize
        if buffer.nbytes % isz:
            raise ValueError("buffer size must be a multiple of element size")
        n = buffer.nbytes // isz
        if count >= 0:
            if count > n:
                raise ValueError("buffer is smaller than requested size")
            n = count
        return zeros((n,), dt)
    return numpy.frombuffer(buffer, _dtype(dtype), count, offset)


def prod(a, axis=None, **kwargs):
    if isinstance(a, (tuple, list)) and has_sym(a):
        r = 1
        for i in a:
            r = r * i
        return r
    return numpy.prod(a, axis=axis)


def clip(a, a_min=None, a_max=None, out=None, **kwargs):
    if not has_sym((a, a_min, a_max)):
        return numpy.clip(a, a_min, a_max, out=out)
    r = a
    if a_min is not None:
        r = numpy.maximum(r, a_min) if isinstance(r, numpy.ndarray) else core.sym_max(r, a_min)
    if a_max is not None:
        r = numpy.minimum(r, a_max) if isinstance(r, numpy.ndarray) else core.sym_min(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return _wrap(r)


class Ufunc:
    def __init__(self, name):
        self.name = self.__name__ = name
        self.real = getattr(numpy, name)
        self.nin = self.real.nin

    def __call__(self, *args, **kwargs):
        args = list(args)
        if len(args) > self.nin:
            kwargs["out"] = args[self.nin]
            args = args[:self.nin]
        out = kwargs.get("out")
        if isinstance(out, tuple):
            out = out[0]
        if any(a is None or isinstance(a, (str, bytes, dict)) for a in args):
            return self.real(*args)
        for a in args:
            if not (is_sym(a) or isinstance(a, (numpy.ndarray, numpy.generic, int, float, complex, list, tuple))):
                raise TypeError(f"ufunc '{self.name}' not supported for the input types")
        args = [array(a) if isinstance(a, (list, tuple)) else a for a in args]
        if has_sym(args) or (out is not None and has_sym(out)):
            if all(is_sym(a) or isinstance(a, (int, float, complex, numpy.generic)) for a in args) and out is None:
                r = ELEMENT[{"divide": "true_divide", "remainder": "mod"}.get(self.name, self.name)](*(_py(a) for a in args))
                return SymReal(r.p, True) if isinstance(r, SymReal) else r
            args = [a.view(OA) if isinstance(a, numpy.ndarray) and a.dtype == object else a for a in args]
            if not any(isinstance(a, OA) for a in args):
                # symbolic scalar with concrete array, or concrete operands with a symbolic output
                if has_sym(args):
                    args = [numpy.asarray(a, dtype=object).view(OA) if is_sym(a) else a for a in args]
                else:
                    kwargs.pop("out")
                    w = kwargs.pop("where", True)
                    with numpy.errstate(all="ignore"):
                        r = self.real(*args, **kwargs)
                    if numpy.any(~numpy.isfinite(r)):
                        raise Unsupported("infinity or NaN in a concrete operation that meets symbolic values")
                    if w is not True:
                        numpy.copyto(out, numpy.asarray(r, object), where=w)
                    else:
                        out[...] = r
                    return out
            if out is not None:
                kwargs["out"] = out.view(OA) if out.dtype == object else out
                self.real(*args, **kwargs)
                return out
            return _wrap(self.real(*args, **kwargs))
        return self.real(*args, **kwargs)

    def reduce(self, a, *args, **kwargs):
        return self.real.reduce(_wrap(numpy.asarray(a)) if has_sym(a) else a, *args, **kwargs)

    def accumulate(self, a, *args, **kwargs):
        return self.real.accumulate(_wrap(numpy.asarray(a)) if has_sym(a) else a, *args, **kwargs)

    def outer(self, a, b, **kwargs):
        return self.real.outer(_wrap(numpy.asarray(a)), _wrap(numpy.asarray(b)))


# --------------------------------------------------------------------------- fourier transforms (exact definition)
_TW = {}
DFT_BITS = 44


def twiddle(n):
    t = _TW.get(n)
    if t is None:
        t = []
        for k in range(n):
            c = Fraction(round(math.cos(2 * math.pi * k / n) * 2 ** DFT_BITS), 2 ** DFT_BITS)
            s = Fraction(round(math.sin(2 * math.pi * k / n) * 2 ** DFT_BITS), 2 ** DFT_BITS)
            t.append((core._norm(c), core._norm(s)))
        _TW[n] = t
    return t


def _fit(row, n):
    row = list(row)
    return row[:n] + [0.0] * (n - len(row))


def rfft(a, n=None, axis=-1, norm=None):
    if not has_sym(a):
        return numpy.fft.rfft(a, n, axis, norm)
    if axis not in (-1, numpy.ndim(a) - 1) or norm is not None:
        raise Unsupported("rfft options")
    a = numpy.asarray(a).view(numpy.ndarray)
    n = a.shape[-1] if n is None else int(n)
    if n < 1:
        raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
    m = n // 2 + 1
    out = numpy.empty(a.shape[:-1] + (m,), object)
    tw = twiddle(n)
    for idx in numpy.ndindex(*a.shape[:-1]):
        row = _fit(a[idx], n)
        for k in range(m):
            re, im = SymReal({}, True), SymReal({}, True)
            for j, x in enumerate(row):
                x = _py(x)
                if isinstance(x, (float, int)) and x == 0:
                    continue
                c, s = tw[(k * j) % n]
                re = re + x * c
                im = im - x * s
            out[idx + (k,)] = SymComplex(re, im)
    return out.view(OA)


def irfft(a, n=None, axis=-1, norm=None):
    if not has_sym(a):
        return numpy.fft.irfft(a, n, axis, norm)
    if axis not in (-1, numpy.ndim(a) - 1) or norm is not None:
        raise Unsupported("irfft options")
    a = numpy.asarray(a).view(numpy.ndarray)
    n = 2 * (a.shape[-1] - 1) if n is None else int(n)
    if n < 1:
        raise ValueError(f"Invalid number of FFT data points ({n}) specified.")
    m = n // 2 + 1
    out = numpy.empty(a.shape[:-1] + (n,), object)
    tw = twiddle(n)
    for idx in numpy.ndindex(*a.shape[:-1]):
        row = _fit(a[idx], m)
        row = [SymComplex.of(_py(x)) for x in row]
        for j in range(n):
            v = row[0].re * 1.0
            for k in range(1, m):
                c, s = tw[(k * j) % n]
                if n % 2 == 0 and k == n // 2:
                    v = v + row[k].re * c
                else:
                    v = v + (row[k].re * c - row[k].im * s) * 2
            out[idx + (j,)] = v * Fraction(1, n)
    return out.view(OA)


def fft(a, n=None, axis=-1, norm=None):
    if not has_sym(a):
        return numpy.fft.fft(a, n, axis, norm)
    a = numpy.asarray(a).view(numpy.ndarray)
    n = a.shape[-1] if n is None else int(n)
    out = numpy.empty(a.shape[:-1] + (n,), object)
    tw = twiddle(n)
    for idx in numpy.ndindex(*a.shape[:-1]):
        row = [SymComplex.of(_py(x)) for x in _fit(a[idx], n)]
        for k in range(n):
            v = SymComplex(SymReal({}, True), SymReal({}, True))
            for j, x in enumerate(row):
                c, s = tw[(k * j) % n]
                v = v + x * SymComplex(c, -s)
            out[idx + (k,)] = v
    return out.view(OA)


def _fftsub():
    m = types.ModuleType("numpy.fft")
    m.__dict__.update(vars(numpy.fft))
    m.rfft, m.irfft, m.fft = rfft, irfft, fft
    for n in ("ifft", "hfft", "ihfft", "fft2", "fftn", "rfft2", "rfftn", "irfft2", "irfftn"):
        setattr(m, n, _guard("fft." + n, getattr(numpy.fft, n)))
    return m


def convolve(a, v, mode="full"):
    if not (has_sym(a) or has_sym(v)):
        return numpy.convolve(a, v, mode)
    a, v = [_py(x) for x in numpy.asarray(a).view(numpy.ndarray)], [_py(x) for x in numpy.asarray(v).view(numpy.ndarray)]
    if len(a) == 0 or len(v) == 0:
        raise ValueError("a cannot be empty")
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    fullr = []
    for k in range(n + m - 1):
        s = 0.0
        for j in range(max(0, k - n + 1), min(m, k + 1)):
            s = s + a[k - j] * v[j]
        fullr.append(s)
    return _cut(fullr, n, m, mode)


def _cut(fullr, n, m, mode):
    if mode in ("full", 2):
        r = fullr
    elif mode in ("same", 1):
        # numpy centres with respect to the full output: m // 2 extra values in front of the valid part
        length = n
        left = (m - 1) - (m // 2)
        r = fullr[left:left + length]
    elif mode in ("valid", 0):
        r = fullr[m - 1:n]
    else:
        raise ValueError(f"mode {mode}")
    out = numpy.empty(len(r), object)
    for i, x in enumerate(r):
        out[i] = x
    return out.view(OA)


def correlate(a, v, mode="valid"):
    if not (has_sym(a) or has_sym(v)):
        return numpy.correlate(a, v, mode)
    a, v = [_py(x) for x in numpy.asarray(a).view(numpy.ndarray)], [_py(x) for x in numpy.asarray(v).view(numpy.ndarray)]
    if len(a) == 0 or len(v) == 0:
        raise ValueError("first argument cannot be empty")
    swapped = len(a) < len(v)
    v = [x.conjugate() for x in v]
    # c_k = sum_n a_{n+k} v_n, k = -(m-1) .. n-1
    n, m = len(a), len(v)
    fullr = []
    for k in range(-(m - 1), n):
        s = 0.0
        for j in range(m):
            if 0 <= j + k < n:
                s = s + a[j + k] * v[j]
        fullr.append(s)
    if swapped:
        # numpy swaps the operands and reverses the result
        r = _cut(fullr[::-1], m, n, mode)
        return r[::-1]
    return _cut(fullr, n, m, mode)


def _np_number(x):
    return x if isinstance(x, (complex, SymComplex)) else to_real(x, True)


def interp(x, xp, fp, left=None, right=None, period=None):
    if not has_sym((x, xp, fp) if not isinstance(x, numpy.ndarray) else (list(x), list(xp), list(fp))):
        return numpy.interp(x, xp, fp, left, right, period)
    if period is not None:
        raise Unsupported("interp with a period")
    xp, fp = [_py(i) for i in xp], [_py(i) for i in fp]

    def one(v):
        v = _py(v)
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[-1]):
            return fp[-1] if right is None else right
        if v == xp[-1]:
            return fp[-1]
        for i in range(len(xp) - 1):
            if bool(v < xp[i + 1]):
                if v == xp[i]:
                    return fp[i]
                slope = (_np_number(fp[i + 1]) - fp[i]) / (_np_number(xp[i + 1]) - xp[i])
                return slope * (v - xp[i]) + fp[i]
        return fp[-1]
    if isinstance(x, (list, tuple, numpy.ndarray)) and numpy.ndim(x):
        return fromiter([one(v) for v in x], numpy.complex128 if any(isinstance(i, (complex, SymComplex)) for i in fp) else numpy.float64)
    return one(x.item() if isinstance(x, numpy.ndarray) else x)


def searchsorted(a, v, side="left", sorter=None):
    if not (has_sym(a) or has_sym(v)):
        return numpy.searchsorted(a, v, side, sorter)
    items = [_py(i) for i in a]

    def one(x):
        for i, e in enumerate(items):
            if bool(_py(x) <= e if side == "left" else _py(x) < e):
                return i
        return len(items)
    if numpy.ndim(v) == 0:
        return one(v)
    return numpy.array([one(x) for x in v], dtype=numpy.int64)


def _guard(path, f):
    def g(*args, **kwargs):
        if has_sym(list(args)) or has_sym(list(kwargs.values())):
            raise Unsupported(f"numpy.{path} on symbolic values")
        return f(*args, **kwargs)
    g.__name__ = path
    return g


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, numpy.ndarray)

    def __call__(cls, *args, **kwargs):
        return numpy.ndarray(*args, **kwargs)


class ndarray(metaclass=_NDMeta):
    pass


def _red(name):
    def f(a, axis=None, **kwargs):
        if has_sym(a):
            if not isinstance(a, numpy.ndarray):
                a = array(a)
            kwargs.pop("dtype", None)
            a = _wrap(a)
            if name in ("min", "max", "amin", "amax"):
                return getattr(a, name[-3:])(axis=axis, **kwargs)
            if name in ("sum", "mean", "any", "all"):
                return getattr(a, name)(axis=axis, **kwargs)
            if name == "var":
                m = a.mean(axis=axis, keepdims=True) if axis is not None else a.mean()
                if axis is not None:
                    m = numpy.expand_dims(_wrap(numpy.asarray(a.mean(axis=axis))), axis)
                d = a - m
                return _wrap(numpy.asarray((d * d).mean(axis=axis))) if axis is not None else (d * d).mean()
            if name == "std":
                return Ufunc("sqrt")(PUB["var"](a, axis=axis))
        return getattr(numpy, name)(a, axis=axis, **kwargs)
    f.__name__ = name
    return f


PUB = {n: _red(n) for n in ("sum", "mean", "any", "all", "min", "max", "amin", "amax", "var", "std")}


def cumsum(a, axis=None, dtype=None, out=None):
    if not has_sym(a):
        return numpy.cumsum(a, axis, dtype, out)
    a = numpy.asarray(a).view(numpy.ndarray)
    if axis is None:
        a, axis = a.ravel(), 0
    r = numpy.array(a, dtype=object)
    m = numpy.moveaxis(r, axis, 0)
    for i in range(1, m.shape[0]):
        m[i] = m[i - 1] + m[i]
    if out is not None:
        out[...] = r
        return out
    return r.view(OA)


def plain(a):
    """a symbolic array whose elements are all constants as an ordinary array"""
    a = numpy.asarray(a).view(numpy.ndarray)
    if a.dtype != object:
        return a
    items = [x.const() if hasattr(x, "const") and not isinstance(x, SymComplex) else x for x in (_py(v) for v in a.ravel())]
    if any(x is None or is_sym(x) for x in items):
        return a
    return numpy.array([float(x) for x in items]).reshape(a.shape)


def norm(x, ord=None, axis=None, keepdims=False):
    if not has_sym(x):
        return numpy.linalg.norm(x, ord, axis, keepdims)
    if ord not in (None, 2) or isinstance(axis, tuple):
        raise Unsupported("norm options")
    a = Ufunc("absolute")(_wrap(numpy.asarray(x)))
    s = PUB["sum"](a * a, axis=axis)
    r = Ufunc("sqrt")(s)
    return numpy.expand_dims(r, axis) if keepdims else r


def lstsq(a, b, rcond=None):
    """least squares through the normal equations (full column rank is assumed)"""
    a = plain(a)
    if not has_sym(a) and not has_sym(b):
        return numpy.linalg.lstsq(a, b, rcond=rcond)
    a = numpy.asarray(a).view(numpy.ndarray)
    b = numpy.asarray(b).view(numpy.ndarray)
    if has_sym(a) or a.shape[1] != 2 or b.ndim != 1:
        raise Unsupported("least squares with an unknown matrix")
    a = a.astype(float)
    p = a.T @ a
    det = p[0, 0] * p[1, 1] - p[0, 1] * p[1, 0]
    inverse = numpy.array([[p[1, 1], -p[0, 1]], [-p[1, 0], p[0, 0]]]) / det
    m = inverse @ a.T
    out = numpy.empty(2, object)
    for i in range(2):
        v = 0.0
        for j in range(len(b)):
            v = v + _py(b[j]) * float(m[i, j])
        out[i] = v
    return out.view(OA), None, 2, None


def _linalgsub():
    m = types.ModuleType("numpy.linalg")
    m.__dict__.update(vars(numpy.linalg))
    for k, v in vars(numpy.linalg).items():
        if callable(v) and not isinstance(v, type) and not k.startswith("_"):
            setattr(m, k, _guard("linalg." + k, v))
    m.norm, m.lstsq = norm, lstsq
    return m


def array2string(a, **kwargs):
    if has_sym(a):
        if core.Ctx.current is None or getattr(core.Ctx.current, "tokens", None) is None:
            raise Unsupported("text of a symbolic array")
        return numpy.array2string(numpy.asarray(a).view(numpy.ndarray), **kwargs)
    return numpy.array2string(a, **kwargs)


def transpose(a, axes=None):
    return _wrap(numpy.transpose(a, axes))


def iscomplexobj(a):
    if has_sym(a):
        return any(isinstance(x, (SymComplex, complex, numpy.complexfloating)) for x in numpy.asarray(a, object).ravel())
    return numpy.iscomplexobj(a)


def save(file, arr, **kwargs):
    from . import files
    return files.save(file, arr, **kwargs)


def savez(file, *args, **kwargs):
    from . import files
    return files.savez(file, *args, **kwargs)


savez_compressed = savez


def load(file, *args, **kwargs):
    from . import files
    return files.load(file, *args, **kwargs)


def real(a):
    return part("real", a)


def imag(a):
    return part("imag", a)


def angle(a, deg=False):
    return part("angle", a)


def dtype(x):
    return numpy.dtype(real_type(x))


def isscalar(x):
    return is_sym(x) or numpy.isscalar(x)


def where(c, *ab):
    if not ab:
        return numpy.where(c)
    return _wrap(numpy.where(numpy.asarray(c, dtype=bool), *[numpy.asarray(x, dtype=object) if has_sym(x) else x for x in ab]))


def reshape(a, newshape, order="C"):
    return _wrap(numpy.reshape(a, newshape, order))


class vectorize:
    """numpy's own converts the results to the given type, which symbolic ones do not survive"""

    def __init__(self, pyfunc, otypes=None, **kwargs):
        self.pyfunc = pyfunc
        self.plain = numpy.vectorize(pyfunc, otypes, **kwargs)

    def __call__(self, *args, **kwargs):
        if kwargs:
            return self.plain(*args, **kwargs)
        args = [numpy.asarray(a, object if has_sym(a) else None) for a in args]
        found = numpy.broadcast(*args)
        results = numpy.empty(found.shape, object)
        results.reshape(-1)[:] = [self.pyfunc(*a) for a in found]
        if has_sym(results):
            return results.view(OA)
        return self.plain(*args)


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(numpy, name)


def make_module():
    m = _Module("numpy")
    for n in dir(numpy):
        v = getattr(numpy, n)
        if isinstance(v, numpy.ufunc):
            m.__dict__[n] = Ufunc(n) if n in ELEMENT or n in ("divide", "remainder", "abs", "conj") else _guard(n, v)
    m.__dict__["abs"] = Ufunc("absolute")
    m.__dict__["conj"] = Ufunc("conjugate")
    m.__dict__["divide"] = Ufunc("true_divide")
    m.__dict__["remainder"] = Ufunc("mod")
    for k in ("empty full zeros ones empty_like zeros_like ones_like full_like array asarray ascontiguousarray asanyarray fromiter arange "
              "linspace frombuffer prod clip convolve correlate interp searchsorted ndarray array2string real imag angle dtype isscalar where reshape transpose iscomplexobj save savez savez_compressed load vectorize").split():
        m.__dict__[k] = globals()[k]
    m.__dict__.update(PUB)
    m.__dict__["fft"] = _fftsub()
    m.__dict__["linalg"] = _linalgsub()
    m.__dict__["cumsum"] = cumsum
    m.__dict__["newaxis"] = None
    return m


def sharedctypes_module():
    from multiprocessing import sharedctypes
    m = types.ModuleType("multiprocessing.sharedctypes")
    m.__dict__.update(vars(sharedctypes))
    m.RawArray = RawArray
    return m
