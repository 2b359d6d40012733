"""Arrays with symbolic shapes: a store is a closure from index terms to a value, a view is index arithmetic on it.

Nothing is ever unrolled over an axis whose length is symbolic, so a verdict
covers every length within the (large) declared range at once.
"""
import numpy

from . import core
from .core import (SymInt, SymReal, SymBool, SymComplex, Unsupported, ite, b_and, b_or, b_not, is_sym, real)
from .loader import real_type, SymRange

z3 = core.z3


def _key(i):
    return i if isinstance(i, int) else hash(i)


def _memo(fn):
    cache = {}

    def f(idx):
        k = tuple(i if isinstance(i, int) else tuple(sorted(i.p.items())) for i in idx)
        r = cache.get(k, cache)
        if r is cache:
            r = fn(idx)
            cache[k] = r
        return r
    return f


def norm_dtype(dtype, default=numpy.float64):
    if dtype is None:
        return numpy.dtype(default)
    return numpy.dtype(real_type(dtype))


def cast(value, dtype):
    """numpy's conversion of an element to an array's type"""
    k = dtype.kind
    if k == "f":
        if isinstance(value, SymComplex):
            return value.re
        if isinstance(value, (complex, numpy.complexfloating)):
            return float(value.real)
        if isinstance(value, SymInt):
            return real(value, True)
        if isinstance(value, (SymBool, bool, int, numpy.integer, numpy.bool_)):
            return real(value, True) if isinstance(value, SymBool) else float(value)
        return value
    if k in "iu":
        if isinstance(value, SymReal):
            return value.__trunc__()
        if isinstance(value, float):
            return int(value)
        if isinstance(value, SymBool):
            return value._int()
        return value
    if k == "b":
        if isinstance(value, (SymReal, SymInt, SymComplex)):
            return value != 0
        return value
    if k == "c" and isinstance(value, SymInt):
        return real(value, True)
    return value


class Store:
    __slots__ = ("shape", "dtype", "fn", "writes", "name", "flatconst")

    def __init__(self, shape, dtype, fn, name="", flatconst=None):
        self.shape = tuple(shape)
        self.dtype = dtype
        self.fn = _memo(fn)
        self.writes = 0
        self.name = name
        self.flatconst = flatconst      # function(shape) -> fn when the content does not depend on the shape


def same(a, b):
    """syntactic equality of sizes"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        return a.p == b.p
    return False


def pick(cond, a, b):
    """chooses by forking the path (or by an If-term inside specifications)"""
    if isinstance(cond, bool):
        return a if cond else b
    if core.ctx().nofork:
        return ite(cond, a, b)
    return a if bool(cond) else b


def norm_slice(s, n):
    """(start, step, length) of a slice on an axis of length n, as numpy clips it"""
    step = 1 if s.step is None else s.step
    if isinstance(step, SymInt):
        step = int(step)
    step = int(step)
    if step == 0:
        raise ValueError("slice step cannot be zero")
    for e in (s.start, s.stop):
        if e is not None and not isinstance(e, (int, SymInt, numpy.integer)):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
    if step > 0:
        if s.start is None:
            start = 0
        else:
            start = s.start
            if start is not n:
                start = pick(start < 0, start + n, start)
                start = pick(start < 0, 0, start)
                if not same(start, n):
                    start = pick(start > n, n, start)
        if s.stop is None or same(s.stop, n):
            stop = n
        else:
            stop = s.stop
            stop = pick(stop < 0, stop + n, stop)
            stop = pick(stop < 0, 0, stop)
            if not same(stop, n):
                stop = pick(stop > n, n, stop)
        length = stop - start
        length = pick(length < 0, 0, length)
        if step != 1:
            length = (length + step - 1) // step
        return start, step, length
    if s.start is None:
        start = n - 1
    else:
        start = pick(s.start < 0, s.start + n, s.start)
        start = pick(start < 0, -1, start)
        start = pick(start >= n, n - 1, start)
    if s.stop is None:
        stop = -1
    else:
        stop = pick(s.stop < 0, s.stop + n, s.stop)
        stop = pick(stop < 0, -1, stop)
        stop = pick(stop >= n, n - 1, stop)
    length = start - stop
    length = pick(length < 0, 0, length)
    if step != -1:
        length = (length - step - 1) // (-step)
    return start, step, length


class SymArray:
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, store, shape, axes, copied=False):
        # axes: per store axis ("fix", index) or ("ax", view axis, start, step)
        self.store = store
        self._shape = tuple(shape)
        self.axes = axes

    # ---- construction
    @staticmethod
    def new(shape, dtype, fn, name="", flatconst=None):
        st = Store(shape, numpy.dtype(dtype), fn, name, flatconst)
        return SymArray(st, shape, [("ax", i, 0, 1) for i in range(len(shape))])

    @staticmethod
    def const(shape, dtype, value):
        dtype = numpy.dtype(dtype)
        v = cast(value, dtype)
        return SymArray.new(shape, dtype, lambda idx: v, flatconst=lambda: v)

    @staticmethod
    def from_any(x, dtype=None):
        if isinstance(x, SymArray):
            return x
        if is_sym(x):
            dt = {SymInt: numpy.int64, SymReal: numpy.float64, SymBool: numpy.bool_, SymComplex: numpy.complex128}[type(x)]
            return SymArray.const((), dtype or dt, x)
        if isinstance(x, (list, tuple)) and _has_sym(x):
            items = [SymArray.from_any(i) for i in x]
            if not items:
                return SymArray.new((0,), dtype or numpy.float64, lambda idx: 0.0)
            shape = items[0]._shape
            for i in items[1:]:
                if len(i._shape) != len(shape):
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
                for p, q in zip(i._shape, shape):
                    if not same(p, q) and not bool(p == q):
                        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            dt = dtype or numpy.result_type(*(i.dtype for i in items))
            fns = [i.snapshot() for i in items]

            def fn(idx):
                r = fns[-1](idx[1:])
                for k in range(len(fns) - 2, -1, -1):
                    c = idx[0] == k
                    if c is True:
                        r = fns[k](idx[1:])
                    elif c is not False:
                        r = ite(c, fns[k](idx[1:]), r)
                return cast(r, numpy.dtype(dt))
            return SymArray.new((len(items),) + tuple(shape), dt, fn)
        if isinstance(x, SymRange):
            n = x.__symlen__()
            return SymArray.new((n,), dtype or numpy.int64, lambda idx: x.start + idx[0] * x.step)
        a = numpy.asarray(x, dtype=dtype) if dtype is not None else numpy.asarray(x)
        if a.dtype == object:
            raise Unsupported("object array in the symbolic-shape encoding")
        if a.shape == ():
            v = a.item()
            return SymArray.new((), a.dtype, lambda idx: v)
        if a.size > 512:
            raise Unsupported("large constant array in the symbolic-shape encoding")

        def fn(idx):
            return _select(a, idx)
        return SymArray.new(a.shape, a.dtype, fn)

    # ---- basic attributes
    @property
    def shape(self):
        return self._shape

    @property
    def dtype(self):
        return self.store.dtype

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = r * s
        return r

    @property
    def itemsize(self):
        return self.store.dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self.itemsize

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return iter(self.ravel())

    def __symlen__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return self._shape[0]

    def __len__(self):
        n = self.__symlen__()
        return n if isinstance(n, int) else n.__index__()

    def __sym_scalar__(self):
        return self.item()

    def item(self, *args):
        if args:
            return self[args if len(args) > 1 else args[0]]
        n = self.size
        if n != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.at(tuple(0 for _ in self._shape))

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __bool__(self):
        n = self.size
        if n == 1 or (not isinstance(n, int) and bool(n == 1)):
            return bool(self.at(tuple(0 for _ in self._shape)))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = self._shape[0]
        limit = core.ctx().limits.get("max_iterations", 64)
        k = 0
        while k < n:
            if k > limit:
                raise Unsupported("iteration over a long axis")
            yield self[k]
            k += 1

    def __repr__(self):
        return f"<SymArray {self._shape}>"

    # ---- element access
    def sidx(self, idx):
        r = []
        for a in self.axes:
            if a[0] == "fix":
                r.append(a[1])
            else:
                _, v, start, step = a
                r.append(start + idx[v] * step if step != 1 else (start + idx[v] if not (isinstance(start, int) and start == 0) else idx[v]))
        return tuple(r)

    def at(self, idx):
        return self.store.fn(self.sidx(idx))

    def snapshot(self):
        """the present content as a function of view indices"""
        fn = self.store.fn
        return lambda idx: fn(self.sidx(idx))

    def write(self, value_fn):
        st = self.store
        old = st.fn
        shape = self._shape
        axes = self.axes
        dtype = st.dtype
        ndim = len(shape)

        def new(sidx):
            conds = []
            vidx = [0] * ndim
            for k, a in enumerate(axes):
                if a[0] == "fix":
                    c = sidx[k] == a[1]
                    if c is False:
                        return old(sidx)
                    if c is not True:
                        conds.append(c)
                    continue
                _, v, start, step = a
                n = shape[v]
                d = sidx[k] - start
                if step == 1:
                    vidx[v] = d
                elif step == -1:
                    vidx[v] = -d
                else:
                    vidx[v] = d // step
                    c = d % step == 0
                    if c is False:
                        return old(sidx)
                    if c is not True:
                        conds.append(c)
                if step == 1 and isinstance(start, int) and start == 0 and same(n, st.shape[k]):
                    continue
                for c in (vidx[v] >= 0, vidx[v] < n):
                    if c is False:
                        return old(sidx)
                    if c is not True:
                        conds.append(c)
            val = lambda: cast(value_fn(tuple(vidx)), dtype)
            if not conds:
                return val()
            c = b_and(*conds)
            if c is True:
                return val()
            if c is False:
                return old(sidx)
            return ite(c, val(), old(sidx))
        st.fn = _memo(new)
        st.flatconst = None
        st.writes += 1

    # ---- indexing
    def _parse(self, key):
        """returns (view, advanced) for a basic index"""
        if not isinstance(key, tuple):
            key = (key,)
        key = [k.item() if isinstance(k, SymArray) and k._shape == () and k.dtype.kind in "iu" else k for k in key]
        if any(isinstance(k, (SymArray, numpy.ndarray, list)) for k in key):
            return None
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if n_real > self.ndim:
            raise IndexError(f"too many indices for array: array is {self.ndim}-dimensional, but {n_real} were indexed")
        if Ellipsis in [k if k is Ellipsis else None for k in key]:
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + [slice(None)] * (self.ndim - n_real) + key[i + 1:]
        else:
            key = key + [slice(None)] * (self.ndim - n_real)
        shape = []
        mapping = {}
        v = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[v]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    start, step, length = 0, 1, n
                else:
                    start, step, length = norm_slice(k, n)
                mapping[v] = ("ax", len(shape), start, step)
                shape.append(length)
            elif isinstance(k, (int, numpy.integer, SymInt)) and not isinstance(k, bool):
                if isinstance(k, numpy.integer):
                    k = int(k)
                i = pick(k < 0, k + n, k)
                ok = b_and(i >= 0, i < n)
                if not core.ctx().nofork:
                    if not ok:
                        raise IndexError(f"index is out of bounds for axis {v}")
                mapping[v] = ("fix", i)
            else:
                raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
            v += 1
        axes = []
        for a in self.axes:
            if a[0] == "fix":
                axes.append(a)
            else:
                _, old_v, start, step = a
                m = mapping[old_v]
                if m[0] == "fix":
                    axes.append(("fix", start + m[1] * step))
                else:
                    axes.append(("ax", m[1], start + m[2] * step, step * m[3]))
        # axes of the old view that are not backed by the store (broadcast) simply vanish or stay free
        return SymArray(self.store, shape, axes)

    def __getitem__(self, key):
        r = self._parse(key)
        if r is None:
            return self._advanced(key)
        if not r._shape:
            if not isinstance(key, tuple) or Ellipsis not in key:
                return r.at(())
        return r

    def _advanced(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], (SymArray, numpy.ndarray)) and key[0].dtype.kind == "b":
            raise Unsupported("selection by a boolean mask")
        pos = [i for i, k in enumerate(key) if isinstance(k, (SymArray, numpy.ndarray, list))]
        if len(pos) == 1:
            p = pos[0]
            ind = SymArray.from_any(key[p])
            if ind.dtype.kind == "b":
                raise Unsupported("selection by a boolean mask")
            if ind.ndim != 1:
                raise Unsupported("multi-dimensional fancy indexing")
            if any(k is None or k is Ellipsis or isinstance(k, (int, SymInt, numpy.integer)) for k in key):
                raise Unsupported("mixed fancy indexing")
            base = self._parse(tuple(slice(None) if i == p else k for i, k in enumerate(key)))
            src = base.snapshot()
            isrc = ind.snapshot()
            n = base._shape[p]
            shape = base._shape[:p] + (ind._shape[0],) + base._shape[p + 1:]

            def fn(idx):
                i = isrc((idx[p],))
                i = ite(i < 0, i + n, i)
                return src(idx[:p] + (i,) + idx[p + 1:])
            # bounds
            if isinstance(ind._shape[0], int) and ind._shape[0] <= 64:
                for k in range(ind._shape[0]):
                    i = isrc((k,))
                    if not b_and(i < n, i >= -n):
                        raise IndexError("index is out of bounds")
            return SymArray.new(shape, self.dtype, fn)
        raise Unsupported("fancy indexing with several index arrays")

    def __setitem__(self, key, value):
        view = self._parse(key)
        if view is None:
            return self._set_advanced(key, value)
        value = SymArray.from_any(value)
        view._assign(value)

    def _assign(self, value):
        vshape = list(value._shape)
        src = value.snapshot()
        while len(vshape) > self.ndim:
            if not (same(vshape[0], 1) or bool(vshape[0] == 1)):
                raise ValueError("could not broadcast input array into shape")
            prev = src
            src = (lambda f: lambda idx: f((0,) + tuple(idx)))(prev)
            vshape = vshape[1:]
        pad = self.ndim - len(vshape)
        bc = []
        for k, n in enumerate(vshape):
            m = self._shape[k + pad]
            if same(n, m):
                bc.append(False)
            elif isinstance(n, int) and n == 1:
                bc.append(True)
            elif bool(n == m):
                bc.append(False)
            elif bool(n == 1):
                bc.append(True)
            else:
                raise ValueError("could not broadcast input array from shape into shape")

        def fn(idx):
            return src(tuple(0 if b else i for b, i in zip(bc, idx[pad:])))
        self.write(fn)

    def _set_advanced(self, key, value):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], (SymArray, numpy.ndarray)) and key[0].dtype.kind == "b":
            mask = SymArray.from_any(key[0])
            v = SymArray.from_any(value)
            if v._shape != () and not (len(v._shape) == 1 and v._shape[0] == 1):
                raise Unsupported("assignment of an array through a mask")
            for p, q in zip(mask._shape, self._shape):
                if not same(p, q) and not bool(p == q):
                    raise IndexError("boolean index did not match indexed array")
            m, old, vf = mask.snapshot(), self.snapshot(), v.snapshot()
            nm = mask.ndim
            self.write(lambda idx: ite(m(idx[:nm]), vf((0,) * v.ndim), old(idx)))
            return
        raise Unsupported("fancy assignment")

    # ---- methods
    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0]
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        axes = [a + self.ndim if a < 0 else a for a in axes]
        if sorted(axes) != list(range(self.ndim)):
            raise ValueError("axes don't match array")
        inv = {old: new for new, old in enumerate(axes)}
        new_axes = [a if a[0] == "fix" else ("ax", inv[a[1]], a[2], a[3]) for a in self.axes]
        return SymArray(self.store, tuple(self._shape[a] for a in axes), new_axes)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(tuple(ax))

    def copy(self, order="C"):
        return SymArray.new(self._shape, self.dtype, self.snapshot())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **kwargs):
        dt = norm_dtype(dtype)
        src = self.snapshot()
        return SymArray.new(self._shape, dt, lambda idx: cast(src(idx), dt))

    def fill(self, value):
        self[...] = value

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == len(self._shape) and all(same(a, b) for a, b in zip(shape, self._shape)):
            return self
        total = self.size
        if any(isinstance(s, int) and s == -1 for s in shape):
            others = 1
            for s in shape:
                if not (isinstance(s, int) and s == -1):
                    others = others * s
            missing = total if (isinstance(others, int) and others == 1) else total // others
            shape = tuple(missing if isinstance(s, int) and s == -1 else s for s in shape)
        want = 1
        for s in shape:
            want = want * s
        if not same(total, want):
            if not bool(total == want):
                raise ValueError("cannot reshape array")
        for s in shape:
            if s < 0:
                raise ValueError("negative dimensions are not allowed")
        if self.store.flatconst is not None:
            v = self.store.flatconst()
            return SymArray.new(shape, self.dtype, lambda idx: v, flatconst=self.store.flatconst)
        # dropping / adding axes of size one
        a = [s for s in self._shape if not (isinstance(s, int) and s == 1)]
        b = [s for s in shape if not (isinstance(s, int) and s == 1)]
        if len(a) == len(b) and all(same(p, q) for p, q in zip(a, b)):
            r = self
            r = r[tuple(0 if isinstance(s, int) and s == 1 else slice(None) for s in self._shape)] if a else self
            return r[tuple(None if isinstance(s, int) and s == 1 else slice(None) for s in shape)] if a else \
                SymArray.const(shape, self.dtype, self.item())
        # general C-order reshape as a copy, when all but the leading axis are concrete
        src = self.snapshot()
        old_shape = self._shape

        def strides(sh):
            st = [1]
            for n in reversed(sh[1:]):
                st.insert(0, st[0] * n)
            return st
        so, sn = strides(old_shape), strides(shape)
        if not all(isinstance(x, int) for x in so):
            raise Unsupported("reshape with symbolic inner axes")

        def fn(idx):
            flat = 0
            for i, s in zip(idx, sn):
                flat = flat + i * s
            r = []
            rest = flat
            for k, s in enumerate(so):
                r.append(rest // s if s != 1 else rest)
                rest = rest % s if s != 1 else 0
            return src(tuple(r))
        return SymArray.new(shape, self.dtype, fn)

    def ravel(self, order="C"):
        return self.reshape(-1) if self.ndim != 1 else self

    flatten = ravel

    def conjugate(self):
        from . import npsym
        return npsym.conjugate(self)

    conj = conjugate

    @property
    def real(self):
        from . import npsym
        return npsym.real(self)

    @property
    def imag(self):
        from . import npsym
        return npsym.imag(self)

    def tolist(self):
        return [x.tolist() if isinstance(x, SymArray) else x for x in self]

    def _reduce(self, f, axis=None, keepdims=False, initial=None):
        return reduce_array(self, f, axis, keepdims, initial)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return self._reduce(lambda a, b: a + b, axis, keepdims, 0.0 if self.dtype.kind in "fc" else 0)

    def prod(self, axis=None):
        return self._reduce(lambda a, b: a * b, axis, False, 1)

    def min(self, axis=None):
        return self._reduce(core.sym_min, axis)

    def max(self, axis=None):
        return self._reduce(core.sym_max, axis)

    def mean(self, axis=None):
        n = self.size if axis is None else self._shape[axis]
        return self.sum(axis) / n

    def any(self, axis=None):
        return self._reduce(lambda a, b: b_or(a, b), axis, False, False)

    def all(self, axis=None):
        return self._reduce(lambda a, b: b_and(a, b), axis, False, True)

    # ---- operators
    def _op(self, name, *args, **kw):
        from . import npsym
        return getattr(npsym, name)(*args, **kw)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("_ipython_display_",):
            raise AttributeError(name)
        raise Unsupported(f"array method {name}")


def _make_op(name, ufunc):
    def f(self, other):
        if _leaves_operator(other):
            return NotImplemented
        return self._op(ufunc, self, other)

    def r(self, other):
        if _leaves_operator(other):
            return NotImplemented
        return self._op(ufunc, other, self)

    def i(self, other):
        return self._op(ufunc, self, other, out=self)
    setattr(SymArray, f"__{name}__", f)
    setattr(SymArray, f"__r{name}__", r)
    setattr(SymArray, f"__i{name}__", i)


def _leaves_operator(o):
    """numpy leaves an operator to the other operand only if that opts out of ufuncs"""
    if o is None or isinstance(o, str):
        return True
    if _arraylike(o):
        return False
    return getattr(type(o), "__array_ufunc__", 0) is None or not hasattr(type(o), "__getitem__")


def _arraylike(o):
    return isinstance(o, (SymArray, numpy.ndarray, list, tuple, int, float, complex, numpy.generic)) or is_sym(o)


for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"), ("truediv", "true_divide"), ("mod", "mod"),
               ("pow", "power"), ("floordiv", "floor_divide"), ("and", "bitwise_and"), ("or", "bitwise_or"), ("xor", "bitwise_xor")):
    _make_op(_n, _u)


def _make_cmp(name, ufunc):
    def f(self, other):
        if not _arraylike(other):
            return NotImplemented
        return self._op(ufunc, self, other)
    setattr(SymArray, f"__{name}__", f)


for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"), ("ne", "not_equal")):
    _make_cmp(_n, _u)
SymArray.__neg__ = lambda self: self._op("negative", self)
SymArray.__pos__ = lambda self: self.copy()
SymArray.__abs__ = lambda self: self._op("absolute", self)
SymArray.__invert__ = lambda self: self._op("invert", self)


def _has_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_has_sym(i) for i in x)
    return isinstance(x, SymArray) or is_sym(x)


def _select(a, idx):
    """element of a constant array at symbolic indices"""
    if all(isinstance(i, int) for i in idx):
        return a[idx].item()
    k = next(j for j, i in enumerate(idx) if not isinstance(i, int))
    n = a.shape[k]
    r = None
    for v in range(n - 1, -1, -1):
        e = _select(a, idx[:k] + (v,) + idx[k + 1:])
        c = idx[k] == v
        if r is None or c is True:
            r = e
        elif c is not False:
            r = ite(c, e, r)
    return r if r is not None else 0.0


def reduce_array(arr, f, axis=None, keepdims=False, initial=None):
    if isinstance(axis, tuple):
        if len(axis) == arr.ndim:
            axis = None
        else:
            raise Unsupported("reduction over several axes")
    if axis is None:
        dims = []
        for s in arr._shape:
            dims.append(_small(s))
        r = initial
        src = arr.snapshot()
        for idx in numpy.ndindex(*dims):
            v = src(tuple(int(i) for i in idx))
            r = v if r is None else f(r, v)
        if r is None:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return r
    if axis < 0:
        axis += arr.ndim
    n = _small(arr._shape[axis])
    src = arr.snapshot()
    shape = arr._shape[:axis] + ((1,) if keepdims else ()) + arr._shape[axis + 1:]

    def fn(idx):
        r = initial
        for k in range(n):
            j = (idx[:axis] + idx[axis + 1:]) if keepdims else idx
            v = src(tuple(j[:axis]) + (k,) + tuple(j[axis:]))
            r = v if r is None else f(r, v)
        return r
    if n == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation which has no identity")
    dt = arr.dtype
    return SymArray.new(shape, dt, fn)


def _small(s):
    if isinstance(s, int):
        if s > 512:
            raise Unsupported("reduction over a long axis")
        return s
    raise Unsupported("reduction over an axis of symbolic length")


def broadcast(shapes):
    """the broadcast shape and, per operand, the flags which axes are repeated"""
    ndim = max(len(s) for s in shapes)
    out = []
    flags = [[None] * ndim for _ in shapes]
    for k in range(ndim):
        dim = 1
        for j, s in enumerate(shapes):
            p = k - (ndim - len(s))
            if p < 0:
                continue
            n = s[p]
            if isinstance(n, int) and n == 1:
                flags[j][k] = True
            elif isinstance(dim, int) and dim == 1:
                dim = n
                flags[j][k] = False
            elif same(n, dim):
                flags[j][k] = False
            elif bool(n == dim):
                flags[j][k] = False
            elif bool(n == 1):
                flags[j][k] = True
            elif bool(dim == 1):
                for i in range(j):
                    if flags[i][k] is False:
                        flags[i][k] = True
                dim = n
                flags[j][k] = False
            else:
                raise ValueError(f"operands could not be broadcast together with shapes {' '.join(str(s) for s in shapes)}")
        out.append(dim)
    return tuple(out), flags


def bread(src, flags, ndim_in):
    """reads an operand at the broadcast index"""
    def f(idx):
        off = len(idx) - ndim_in
        return src(tuple(0 if flags[off + k] else idx[off + k] for k in range(ndim_in)))
    return f
