"""Loads the package under test from /repo's working tree with replaced builtins and imports.

The source files are compiled unmodified. Only the names they look up outside
themselves (builtins and imported modules) are redirected, so that the code's own
functions run on symbolic values. The copy lives beside a normally imported sumpf.
"""
import builtins
import importlib
import importlib.util
import os
import sys
import types

from . import core
from .core import SymInt, SymReal, SymBool, SymComplex, ite, is_sym, Unsupported

REPO = os.environ.get("SUMPF_REPO", "/repo")


def _parsed(x):
    """a number that was read from a text may stand for a symbolic one"""
    if core.Ctx.current is None or getattr(core.Ctx.current, "tokens", None) is None:
        return x
    return core.Ctx.current.tokens.back(x)


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._inst)

    def __subclasscheck__(cls, c):
        return c in cls.__mro__ or issubclass(c, cls._real)

    def __call__(cls, *args, **kwargs):
        return cls._make(*args, **kwargs)

    def __getattr__(cls, name):
        return getattr(cls._real, name)

    def __eq__(cls, other):
        return other is cls or other is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


class INT(metaclass=_NumMeta):
    _real = int
    _inst = (int, SymInt)

    @staticmethod
    def _make(*args, **kwargs):
        if args and is_sym(args[0]):
            x = args[0]
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymReal):
                return x.__trunc__()
            if isinstance(x, SymBool):
                return x._int()
            raise TypeError("can't convert complex to int")
        if args and hasattr(args[0], "__sym_scalar__"):
            return INT._make(args[0].__sym_scalar__())
        if args and hasattr(args[0], "shape") and getattr(args[0], "dtype", None) is not None and args[0].dtype == object:
            return INT._make(args[0].item())
        return int(*args, **kwargs)


class FLOAT(metaclass=_NumMeta):
    _real = float
    _inst = (float, SymReal)

    @staticmethod
    def _make(*args, **kwargs):
        if args and is_sym(args[0]):
            return core.real(args[0]) if not isinstance(args[0], SymComplex) else float(args[0])
        if args and hasattr(args[0], "__sym_scalar__"):
            return FLOAT._make(args[0].__sym_scalar__())
        if args and hasattr(args[0], "shape") and getattr(args[0], "dtype", None) is not None and args[0].dtype == object:
            return FLOAT._make(args[0].item())
        r = float(*args, **kwargs)
        return _parsed(r) if args and isinstance(args[0], (str, bytes)) else r


class COMPLEX(metaclass=_NumMeta):
    _real = complex
    _inst = (complex, SymComplex)

    @staticmethod
    def _make(*args, **kwargs):
        if any(is_sym(a) for a in args):
            if len(args) == 1:
                return SymComplex.of(args[0])
            return SymComplex(args[0], args[1])
        if args and getattr(args[0], "dtype", None) == object and getattr(args[0], "shape", None) == ():
            return COMPLEX._make(args[0].item())
        r = complex(*args, **kwargs)
        return _parsed(r) if args and isinstance(args[0], str) else r


class BOOL(metaclass=_NumMeta):
    _real = bool
    _inst = (bool, SymBool)

    @staticmethod
    def _make(*args, **kwargs):
        return bool(*args, **kwargs)


def real_type(t):
    """the real builtin type for a shimmed one"""
    if t is INT:
        return int
    if t is FLOAT:
        return float
    if t is COMPLEX:
        return complex
    if t is BOOL:
        return bool
    return t


def s_isinstance(x, types_):
    return isinstance(x, types_)


def s_len(x):
    f = getattr(x, "__symlen__", None)
    if f is not None:
        return f()
    m = getattr(type(x), "__len__", None)
    if isinstance(m, types.FunctionType):
        # a python-level __len__ may return a symbolic integer
        r = m(x)
        if isinstance(r, SymInt):
            return r
        return len(x) if not isinstance(r, int) else r
    return len(x)


class SymRange:
    def __init__(self, *args):
        if len(args) == 1:
            self.start, self.stop, self.step = 0, args[0], 1
        elif len(args) == 2:
            self.start, self.stop, self.step = args[0], args[1], 1
        else:
            self.start, self.stop, self.step = args
        if isinstance(self.step, SymInt):
            if self.step == 0:
                raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        i = self.start
        up = self.step > 0
        up = up if isinstance(up, bool) else bool(up)
        limit = core.ctx().limits.get("max_iterations", 64) if core.Ctx.current else 10000
        for _ in range(limit):
            go = (i < self.stop) if up else (i > self.stop)
            if not go:
                return
            yield i
            i = i + self.step
        if (i < self.stop) if up else (i > self.stop):
            raise Unsupported("a loop ran more often than the iteration bound allows")

    def __symlen__(self):
        if self.step == 1:
            return core.sym_max(self.stop - self.start, 0)
        return core.sym_max((self.stop - self.start + self.step - 1) // self.step, 0)

    def __len__(self):
        return int(self.__symlen__())

    def __contains__(self, x):
        if self.step == 1:
            return bool(core.b_and(x >= self.start, x < self.stop))
        return any(bool(x == i) for i in self)

    def __getitem__(self, k):
        return list(self)[k]

    def __reversed__(self):
        return reversed(list(self))


def s_range(*args):
    if any(is_sym(a) for a in args):
        return SymRange(*args)
    return range(*args)


def _minmax(which):
    pick = core.sym_min if which == "min" else core.sym_max
    real = min if which == "min" else max

    def f(*args, **kwargs):
        items = list(args[0]) if len(args) == 1 else list(args)
        key = kwargs.get("key")
        if key is None and any(is_sym(i) for i in items):
            items = [core.real(i) if isinstance(i, SymBool) else i for i in items]
            r = items[0]
            for i in items[1:]:
                r = pick(r, i)
            return r
        if len(args) == 1:
            return real(items, **kwargs)
        return real(*items, **kwargs)
    f.__name__ = which
    return f


def s_sum(iterable, start=0):
    r = start
    for i in iterable:
        r = r + i
    return r


def s_any(iterable):
    for i in iterable:
        if i:
            return True
    return False


def s_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return round(x) if n is None else round(x, n)


def s_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(a, b, m)


def s_divmod(a, b):
    if is_sym(a) or is_sym(b):
        return a // b, a % b
    return divmod(a, b)


class Loader:
    """an own copy of the package under test"""

    def __init__(self, modules=None, builtin_overrides=None, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.shims = dict(modules or {})
        self.builtins = dict(vars(builtins))
        self.builtins.update({"__import__": self._import, "int": INT, "float": FLOAT, "complex": COMPLEX, "bool": BOOL,
                              "isinstance": s_isinstance, "len": s_len, "range": s_range, "min": _minmax("min"),
                              "max": _minmax("max"), "sum": s_sum, "round": s_round, "pow": s_pow, "divmod": s_divmod})
        self.builtins.update(builtin_overrides or {})
        self.functions_run = set()

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            package = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            name = importlib.util.resolve_name("." * level + name, package)
        root = name.partition(".")[0]
        if root == "sumpf":
            m = self._load(name)
            if fromlist:
                for f in fromlist:
                    if f == "*":
                        continue
                    if not hasattr(m, f):
                        self._load(name + "." + f)
                return m
            return m if level else self._load(root)
        for n in (name, root):
            if n in self.shims:
                m = self.shims[n]
                if n == name and not fromlist and "." in name and root not in self.shims:
                    importlib.import_module(name)
                    return self._wrap_root(root, sys.modules[root])
                if n == name or not fromlist:
                    return self.shims.get(root, m) if (not fromlist and root in self.shims) else m
                for part in name.split(".")[1:]:
                    m = getattr(m, part)
                return m
        if not fromlist:
            importlib.import_module(name)
            m = sys.modules[root]
            return self._wrap_root(root, m)
        m = importlib.import_module(name)
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                try:
                    importlib.import_module(name + "." + f)
                except ImportError:
                    pass
        subs = {f: self.shims[name + "." + f] for f in fromlist if name + "." + f in self.shims}
        if subs:
            proxy = types.ModuleType(name)
            proxy.__dict__.update(vars(m))
            proxy.__dict__.update(subs)
            return proxy
        return m

    def _wrap_root(self, root, m):
        subs = {k: v for k, v in self.shims.items() if k.startswith(root + ".") and k.count(".") == 1}
        if not subs:
            return m
        proxy = types.ModuleType(root)
        proxy.__dict__.update(vars(m))
        for k, v in subs.items():
            setattr(proxy, k.rpartition(".")[2], v)
        return proxy

    def _load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        parent = None
        if "." in name:
            parent = self._load(name.rpartition(".")[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        path = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(path):
            filename = os.path.join(path, "__init__.py")
            package = name
        else:
            filename = path + ".py"
            package = name.rpartition(".")[0]
        if not os.path.exists(filename):
            raise ImportError(f"No module named {name!r}")
        m = types.ModuleType(name)
        m.__file__ = filename
        m.__package__ = package
        if os.path.isdir(path):
            m.__path__ = [path]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        if parent is not None:
            setattr(parent, name.rpartition(".")[2], m)
        with open(filename, "rb") as f:
            code = compile(f.read(), filename, "exec")
        exec(code, m.__dict__)
        return m

    def load(self, name="sumpf"):
        return self._load(name)
