"""Hashes of symbolic values: known by the values that they are computed from."""
from engine import core
from engine.core import SymBool, is_sym, b_and


class HashOf:
    """the hash of a tuple of values; equal if the values are"""

    def __init__(self, items):
        self.items = items

    def __eq__(self, other):
        if not isinstance(other, HashOf) or len(self.items) != len(other.items):
            return False
        r = True
        for a, b in zip(self.items, other.items):
            e = same(a, b)
            if e is False:
                return False
            if e is not True:
                r = e if r is True else b_and(r, e)
        return r

    def __ne__(self, other):
        e = self == other
        return core.b_not(e) if isinstance(e, SymBool) else not e

    __hash__ = None

    # arithmetic on hashes, as in hash(a) ^ hash(b)
    def _mix(self, other, name):
        return HashOf([name, self, other])

    def __xor__(self, o):
        return self._mix(o, "^")

    def __rxor__(self, o):
        return self._mix(o, "^")

    def __add__(self, o):
        return self._mix(o, "+")

    __radd__ = __add__

    def __mul__(self, o):
        return self._mix(o, "*")

    __rmul__ = __mul__


def same(a, b):
    if isinstance(a, HashOf) or isinstance(b, HashOf):
        return a == b if isinstance(a, HashOf) else b == a
    if isinstance(a, (tuple, frozenset)) or isinstance(b, (tuple, frozenset)):
        return HashOf(list(a)) == HashOf(list(b)) if isinstance(a, tuple) and isinstance(b, tuple) else a == b
    if is_sym(a) or is_sym(b):
        if type(a) in (str, type(None)) or type(b) in (str, type(None)):
            return False
        r = a == b
        return r
    return a == b or hash(a) == hash(b)


def has_sym(x):
    if isinstance(x, HashOf) or is_sym(x):
        return True
    if isinstance(x, (tuple, frozenset, list)):
        return any(has_sym(v) for v in x)
    return False


def s_hash(x):
    if isinstance(x, HashOf):
        return x
    if is_sym(x):
        return HashOf([x])
    if isinstance(x, tuple):
        items = [s_hash(v) if not isinstance(v, (str, int, float, type(None))) else v for v in x]
        return HashOf(items) if any(isinstance(v, HashOf) for v in items) else hash(x)
    h = type(x).__hash__
    if h is None:
        raise TypeError(f"unhashable type: {type(x).__name__!r}")
    return h(x)


def hash_of(w, x):
    return s_hash(x) if w.symbolic else hash(x)


OPT = {"builtins": {"hash": s_hash}}
