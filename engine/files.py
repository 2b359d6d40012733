"""Symbolic numbers in files.

The code under test writes its files for real: through the csv, json, re and wave
modules and into a scratch directory. A symbolic number is represented in them by a
unique ordinary number (its token), with a sign that the exploration forks over.
Where a number is read back (float, complex, eval, json, struct, numpy.load), the
token is replaced with the symbolic value again.
"""
import ast
import builtins
import collections.abc
import json as real_json
import numbers
import struct as real_struct
import types

import numpy

from . import core
from .core import SymInt, SymReal, SymComplex, Fraction

FORMS = ("plain", "long", "small", "large")
numbers.Real.register(SymReal)
numbers.Complex.register(SymComplex)
numbers.Integral.register(SymInt)


class Tokens:
    """the numbers of one path that stand for symbolic ones"""

    def __init__(self, form="plain"):
        self.form = form
        self.floats, self.keys = {}, {}
        self.ints, self.intkeys = {}, {}
        self.stored = {}

    def _next(self):
        n = len(self.keys)
        if self.form == "plain":
            return 7.0 + (2 * n + 1) / 4096
        if self.form == "long":
            return 0.12345678901234566 + n
        if self.form == "small":
            return float(f"{n + 2}e-07")
        return float(f"{n + 3}e+20")

    def real(self, x):
        """the float that is written for a real number"""
        if not isinstance(x, (SymReal, SymInt)):
            return float(x)
        x = core.real(x)
        c = x.const()
        if c is not None:
            r = float(c)
            if Fraction(r) != Fraction(c):
                self.floats[abs(r)] = core.real(abs(Fraction(c)))
            return r
        if x == 0:
            return 0.0
        negative = bool(x < 0)
        y = -x if negative else x
        key = frozenset(y.p.items())
        t = self.keys.get(key)
        if t is None:
            t = self._next()
            self.keys[key] = t
            self.floats[t] = y
        return -t if negative else t

    def integer(self, x):
        c = x.const()
        if c is not None:
            return int(c)
        key = frozenset(x.p.items())
        t = self.intkeys.get(key)
        if t is None:
            t = 700001 + len(self.intkeys)
            self.intkeys[key] = t
            self.ints[t] = x
        return t

    def sample(self, x, low, high):
        """the integer that stands for a sample with few bits"""
        if not isinstance(x, SymInt):
            return int(x)
        c = x.const()
        if c is not None:
            return int(c)
        if x < low or x > high:
            raise real_struct.error("argument out of range")
        key = ("sample", frozenset(x.p.items()))
        t = self.intkeys.get(key)
        if t is None:
            t = 3 + 2 * len(self.intkeys)
            if t > 120:
                raise core.Unsupported("too many symbolic samples for eight bits")
            self.intkeys[key] = t
            self.ints[("sample", t)] = x
        return t

    def back(self, x):
        """the symbolic number for one that was read"""
        if type(x) is complex:
            re, im = self.back(x.real), self.back(x.imag)
            return SymComplex(re, im) if core.is_sym(re) or core.is_sym(im) else x
        if type(x) is float:
            y = self.floats.get(abs(x))
            return x if y is None else (-y if x < 0 else y)
        if type(x) is int:
            return self.ints.get(x, x)
        return x


def tokens():
    return getattr(core.Ctx.current, "tokens", None) if core.Ctx.current else None


def activate(form):
    core.Ctx.current.tokens = Tokens(form)


# ---- text
def text(x):
    t = tokens()
    if isinstance(x, SymComplex):
        return repr(complex(t.real(x.re), t.real(x.im)))
    if isinstance(x, SymInt):
        return repr(t.integer(x))
    return repr(t.real(x))


def _hook(cls):
    old = cls.__repr__

    def to_text(self):
        return text(self) if tokens() else old(self)

    def formatted(self, spec):
        if not tokens():
            return "<sym>"
        if not spec:
            return text(self)
        t = tokens()
        if isinstance(self, SymComplex):
            return format(complex(t.real(self.re), t.real(self.im)), spec)
        return format(t.integer(self) if isinstance(self, SymInt) else t.real(self), spec)
    cls.__repr__ = cls.__str__ = to_text
    cls.__format__ = formatted


_hook(core._Sym)
_hook(SymComplex)


def parsed(x):
    t = tokens()
    return x if t is None else t.back(x)


class _Back(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Constant(self, node):
        v = parsed(node.value)
        if core.is_sym(v):
            name = f"__token{len(self.names)}"
            self.names[name] = v
            return ast.copy_location(ast.Name(name, ast.Load()), node)
        return node


def s_eval(source, globals=None, locals=None):
    if tokens() is None or not isinstance(source, str):
        return builtins.eval(source, globals, locals)
    names = {}
    tree = ast.fix_missing_locations(_Back(names).visit(ast.parse(source.strip(), mode="eval")))
    return builtins.eval(compile(tree, "<text>", "eval"), globals, {**(locals or {}), **names})


# ---- json
def _tokenise(x):
    if isinstance(x, SymInt):
        return tokens().integer(x)
    if isinstance(x, SymReal):
        return tokens().real(x)
    if isinstance(x, collections.abc.Mapping):
        return {k: _tokenise(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_tokenise(v) for v in x]
    return x


def _untokenise(x):
    if isinstance(x, dict):
        return {k: _untokenise(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_untokenise(v) for v in x]
    return parsed(x)


def json_module(np_=None):
    m = types.ModuleType("json")
    m.__dict__.update(vars(real_json))
    pre = lambda x: x if tokens() is None else _tokenise(x)
    m.dump = lambda x, f, **kw: real_json.dump(pre(x), f, **kw)
    m.dumps = lambda x, **kw: real_json.dumps(pre(x), **kw)
    m.load = lambda f, **kw: _untokenise(real_json.load(f, **kw))
    m.loads = lambda s, **kw: _untokenise(real_json.loads(s, **kw))
    return m


# ---- struct
_RANGES = {c: ((-1 << (8 * n - 1), (1 << (8 * n - 1)) - 1) if c.islower() else (0, (1 << (8 * n)) - 1)) for c, n in zip("bBhHiI", (1, 1, 2, 2, 4, 4))}


def struct_module(np_=None):
    m = types.ModuleType("struct")
    m.__dict__.update(vars(real_struct))

    def pack(mask, *values):
        t = tokens()
        if t is None:
            return real_struct.pack(mask, *values)
        low, high = _RANGES[mask[-1]]
        return real_struct.pack(mask, *(t.sample(v, low, high) for v in values))

    def unpack(mask, data):
        t = tokens()
        r = real_struct.unpack(mask, data)
        return r if t is None else tuple(t.ints.get(("sample", v), v) for v in r)
    m.pack, m.unpack = pack, unpack
    return m


# ---- numpy's files
MAGIC = b"\x93SYMBOLIC"


def _symbolic(a):
    return isinstance(a, numpy.ndarray) and a.dtype == object or core.is_sym(a)


def _keep(a):
    if core.is_sym(a):
        r = numpy.empty((), object)
        r[()] = a
        return r.view(_oa())
    return numpy.array(a, copy=True, subok=True) if isinstance(a, numpy.ndarray) else numpy.asanyarray(a)


def _oa():
    from . import npobj
    return npobj.OA


def _store(file, content):
    t = tokens()
    t.stored[len(t.stored)] = content
    data = MAGIC + str(len(t.stored) - 1).encode()
    if hasattr(file, "write"):
        file.write(data)
    else:
        with open(file, "wb") as f:
            f.write(data)


class Archive(collections.abc.Mapping):
    """what numpy.load returns for an npz file"""

    def __init__(self, arrays):
        self.arrays = arrays
        self.files = list(arrays)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self.arrays = None

    def __getitem__(self, key):
        return _keep(self.arrays[key])

    def __iter__(self):
        return iter(self.arrays)

    def __len__(self):
        return len(self.arrays)


def save(file, arr, **kwargs):
    if tokens() is None or not _symbolic(arr):
        return numpy.save(file, arr, **kwargs)
    _store(file, _keep(arr))


def savez(file, *args, **kwds):
    arrays = {f"arr_{i}": a for i, a in enumerate(args)}
    arrays.update(kwds)
    arrays = {k: numpy.array([None] + list(v), dtype=object)[1:] if isinstance(v, (list, tuple)) and any(core.is_sym(i) for i in v) else v for k, v in arrays.items()}
    if tokens() is None or not any(_symbolic(a) for a in arrays.values()):
        return numpy.savez(file, **arrays)
    _store(file, {k: _keep(a) for k, a in arrays.items()})


def load(file, *args, **kwargs):
    if tokens() is not None:
        if hasattr(file, "read"):
            position = file.tell()
            head = file.read(64)
            file.seek(position)
        else:
            with open(file, "rb") as f:
                head = f.read(64)
        if head.startswith(MAGIC):
            content = tokens().stored[int(head[len(MAGIC):])]
            return Archive(content) if isinstance(content, dict) else _keep(content)
    return numpy.load(file, *args, **kwargs)


def options(**core_options):
    """the options of a case whose harness works with files"""
    return {"shims": {"json": json_module, "struct": struct_module}, "builtins": {"eval": s_eval}, "core": core_options or {"nra": True}, "timeout_ms": 5000}
