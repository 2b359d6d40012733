"""Path-exploring symbolic execution core: symbolic scalars over z3, branch decisions, obligations.

Scalars are kept in a polynomial normal form over z3 atoms, so that most of the
index arithmetic of the code under test is decided syntactically and the terms
that reach the solver stay small. Every *decision* that is not syntactic
(branches, bounds, and all property obligations) goes to z3.
"""
import fractions
import math
import time

from . import z3load
z3 = z3load.z3

Fraction = fractions.Fraction


# --------------------------------------------------------------------------- control-flow exceptions
class EngineSignal(BaseException):
    """Base of the engine's own signals. Not an Exception, so the code under test cannot swallow it."""


class Unsupported(EngineSignal):
    """The code under test used something the active encoding does not model."""


class Inconclusive(EngineSignal):
    """A bound of the exploration (paths, depth, time) or the solver's unknown was hit."""


class PathAbort(EngineSignal):
    """The path's assumptions are infeasible."""


class CheckFailed(EngineSignal):
    """The property does not hold (concrete runs: with these values; symbolic runs: with a model)."""

    def __init__(self, label, model=None, detail=""):
        super().__init__(label)
        self.label = label
        self.model = model
        self.detail = detail


# --------------------------------------------------------------------------- context
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.unknown = 0
        self.reach = 0
        self.spurious_s = 0.0

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    """One path of one exploration."""
    current = None

    def __init__(self, prefix, worklist, stats, limits):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.worklist = worklist
        self.stats = stats
        self.limits = limits
        self.solver = z3.Solver()
        self.solver.set("timeout", limits.get("timeout_ms", 20000))
        self.model = None
        self.nofork = 0
        self.divisions = {}
        self.counter = {}
        self.axiom_done = set()
        self.inputs = []
        self.observed = []
        self.tokens = None
        self.rounded = {}
        self.arguments = {}

    # ---- solver
    def check(self, *assumptions):
        if time.time() > self.limits["deadline"]:
            raise Inconclusive("time limit of the case reached")
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def add(self, formula):
        self.solver.add(formula)

    def assume(self, cond):
        """adds an assumption; aborts the path if it becomes infeasible"""
        cond = to_z3bool(cond)
        if z3.is_true(cond):
            return
        self.solver.add(cond)
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        self.model = None
        if z3.is_false(cond) or self.check() == z3.unsat:
            raise PathAbort()
        self._keep_model()

    def assume_quiet(self, cond):
        """adds an axiom instance that is valid by construction"""
        self.solver.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def _keep_model(self):
        try:
            self.model = self.solver.model()
        except z3.Z3Exception:
            self.model = None

    def branch(self, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(choice)
            self.solver.add(cond if choice else z3.Not(cond))
            self.model = None
            return choice
        if len(self.trace) > self.limits.get("max_decisions", 4000):
            raise Inconclusive("too many decisions on one path")
        known = None
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.sat:
                self._keep_model()
        if self.model is not None:
            v = self.model.eval(cond, model_completion=True)
            if z3.is_true(v):
                known = True
            elif z3.is_false(v):
                known = False
        if known is None:
            can_true = self.check(cond) != z3.unsat
            can_false = self.check(z3.Not(cond)) != z3.unsat
        elif known:
            can_true = True
            can_false = self.check(z3.Not(cond)) != z3.unsat
        else:
            can_false = True
            can_true = self.check(cond) != z3.unsat
        self.pos += 1
        if can_true and can_false:
            if self.nofork:
                raise Unsupported("a specification term branched on a symbolic value")
            self.stats.decisions += 1
            first = True if known is None else known
            self.worklist.append(self.trace + [not first])
            choice = first
        elif can_true:
            choice = True
        elif can_false:
            choice = False
        else:
            raise PathAbort()
        self.trace.append(choice)
        self.prefix = self.trace[:]
        self.solver.add(cond if choice else z3.Not(cond))
        if known is None or known != choice:
            self.model = None
        return choice

    def entailed(self, cond):
        """whether the path condition implies cond (solver query, no fork)"""
        cond = to_z3bool(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.model is not None and z3.is_false(self.model.eval(cond, model_completion=True)):
            return False
        return self.check(z3.Not(cond)) == z3.unsat

    def concretise(self, term):
        """forks over the feasible values of a z3 Int term"""
        for _ in range(self.limits.get("max_values", 64)):
            if self.pos < len(self.prefix):
                # re-execution: the sequence of tried values is recorded with the decisions
                tried = self.prefix[self.pos]
                value, choice = tried
                self.pos += 1
                self.trace.append(tried)
                self.solver.add(term == value if choice else term != value)
                self.model = None
                if choice:
                    return value
                continue
            if self.model is None:
                r = self.check()
                if r == z3.unsat:
                    raise PathAbort()
                if r != z3.sat:
                    raise Inconclusive("solver answered unknown while enumerating a size")
                self._keep_model()
            value = self.model.eval(term, model_completion=True).as_long()
            can_other = self.check(term != value) != z3.unsat
            if can_other:
                if self.nofork:
                    raise Unsupported("a specification term needed a concrete value")
                self.stats.decisions += 1
                self.worklist.append(self.trace + [(value, False)])
            self.pos += 1
            self.trace.append((value, True))
            self.prefix = self.trace[:]
            self.solver.add(term == value)
            return value
        raise Inconclusive("too many values for a size that has to be concrete")

    def choose(self, term, n):
        """forks over 0..n-1 for an unconstrained z3 Int term, which needs no solver"""
        value = 0
        while self.pos < len(self.prefix):
            value, choice = self.prefix[self.pos]
            self.pos += 1
            self.trace.append((value, choice))
            if choice:
                self.solver.add(term == value)
                self.model = None
                return value
            value += 1
        if value + 1 < n:
            if self.nofork:
                raise Unsupported("a specification term made a choice")
            self.stats.decisions += 1
            self.worklist.append(self.trace + [(value, False)])
        self.pos += 1
        self.trace.append((value, True))
        self.prefix = self.trace[:]
        self.solver.add(term == value)
        if self.model is not None and not z3.is_true(self.model.eval(term == value, model_completion=True)):
            self.model = None
        return value

    def fresh(self, name, sort):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return z3.Const(f"{name}!{n}" if n else name, sort)

    # ---- obligations
    def prove(self, cond, label, extra=()):
        """asks the solver for a counterexample to cond under the path condition (+ extra)"""
        self.stats.obligations += 1
        cond = to_z3bool(cond)
        if z3.is_true(cond):
            self.stats.discharged += 1
            return
        neg = z3.Not(cond)
        r = self.check(*extra, neg)
        if r == z3.unsat:
            self.stats.discharged += 1
            return
        if r == z3.sat:
            raise CheckFailed(label, model=(list(extra) + [neg]))
        self.stats.unknown += 1
        raise Inconclusive(f"solver answered unknown for: {label}")


def ctx():
    c = Ctx.current
    if c is None:
        raise RuntimeError("no symbolic execution is active")
    return c


# --------------------------------------------------------------------------- atoms and polynomials
_ATOMS = []           # index -> z3 term (Int or Real sort)
_ATOM_INDEX = {}      # z3 ast id -> index
_MUL = z3.Function("mul", z3.RealSort(), z3.RealSort(), z3.RealSort())
_INV = z3.Function("inv", z3.RealSort(), z3.RealSort())
OPTIONS = {"nra": False}


def reset_atoms():
    _ATOMS.clear()
    _ATOM_INDEX.clear()
    _POLY_ATOMS.clear()
    _SQUARES.clear()
    _POWERS.clear()
    _LOGS.clear()


_POLY_ATOMS = {}
_SQUARES = {}         # atom index of sqrt(p) or abs(x) -> polynomial of its square


_POWERS = {}          # atom index of base ** exponent -> (base, exponent)


def _power_is(value, base, exponent):
    """registers value = base ** exponent for a constant base"""
    if isinstance(value, SymReal) and len(value.p) == 1:
        (m, c), = value.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            _POWERS[m[0][0]] = (float(base), exponent)
    return value


_LOGS = {}            # atom index of a logarithm -> (base, argument)


def _log_is(value, base, x):
    """registers value = log(x) to the base, and that the logarithm is strictly increasing"""
    (m, _), = value.p.items()
    _LOGS[m[0][0]] = (base, x)
    c = Ctx.current
    if c is not None:
        others = c.__dict__.setdefault("logarithms", {}).setdefault(base, [])
        if not any(v.eq(value.z) for _, v in others):
            for y, v in others:
                c.assume_quiet((x.z < y) == (value.z < v))
                c.assume_quiet((x.z == y) == (value.z == v))
            others.append((x.z, value.z))
    return value


def _power_of_log(base, exponent):
    """x when the exponent is log(x) to the base"""
    if len(exponent.p) == 1:
        (m, c), = exponent.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in _LOGS and _LOGS[m[0][0]][0] == base:
            return _LOGS[m[0][0]][1]
    return None


def _log_of_power(x):
    """(base, exponent) when x is a known power, possibly of a constant base"""
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if c == 1 and len(m) == 1 and m[0][0] in _POWERS:
            base, exponent = _POWERS[m[0][0]]
            return base, exponent * m[0][1]
    return None


def _square_is(value, p):
    """registers that the square of the atomic value is p"""
    if len(value.p) == 1:
        (m, c), = value.p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            _SQUARES[m[0][0]] = dict(p)
    return value


def _reduce_squares(p):
    """replaces squares of square roots and absolute values"""
    while True:
        hit = next((m for m in p if any(e >= 2 and i in _SQUARES for i, e in m)), None)
        if hit is None:
            return p
        c = p[hit]
        p = {m: v for m, v in p.items() if m is not hit}
        i, e = next((i, e) for i, e in hit if e >= 2 and i in _SQUARES)
        rest = tuple((k, x) for k, x in hit if k != i) + (((i, e - 2),) if e > 2 else ())
        p = padd(p, pmul({tuple(sorted(rest)): c}, _SQUARES[i]))


def _atom(term):
    key = term.get_id()
    i = _ATOM_INDEX.get(key)
    if i is None:
        i = len(_ATOMS)
        _ATOMS.append(term)
        _ATOM_INDEX[key] = i
    return i


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _pmul_mono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) + e
        if v:
            d[k] = v
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def padd(p, q, f=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = _norm(v)
        else:
            r.pop(m, None)
    return r


def partial_fractions(p):
    """
    p, in which a variable is replaced in the products of the variable and the inverse of a sum
    with it, which makes a difference of such products zero if it is (n / (n + 1) is 1 - 1 / (n + 1))
    """
    atoms = {i for m in p for i, e in m if e < 0}
    if not atoms:
        return p
    sums = {i: key for key, i in _POLY_ATOMS.items() if i in atoms}
    for i in sorted(sums, reverse=True):
        d = dict(sums[i])
        pivot = max((x for x in d if len(x) == 1 and x[0][1] == 1), default=None)
        if pivot is None or sum(1 for x in d if any(j == pivot[0][0] for j, _ in x)) > 1:
            continue
        k = d.pop(pivot)
        j = pivot[0][0]
        for _ in range(200):
            hit = next((x for x in p if dict(x).get(i, 0) < 0 and dict(x).get(j, 0) > 0), None)
            if hit is None:
                break
            p = dict(p)
            c = p.pop(hit)
            base = _pmul_mono(hit, ((j, -1),))
            p = padd(p, {_pmul_mono(base, ((i, 1),)): _norm(Fraction(c) / k)})
            p = padd(p, pmul({base: _norm(Fraction(-c) / k)}, d))
    return p


def cancel(p, d):
    """p, in which d ** -1 is cancelled out of all summands, or None if that is not possible"""
    (m, _), = d.reciprocal().p.items()
    p = partial_fractions(p)
    return p if not any(dict(x).get(i, 0) < 0 for x in p for i, _ in m) else None


def _common_factor(p):
    """the monomial by which all summands can be divided"""
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
            continue
        r = {}
        for i, e in common.items():
            f = d.get(i, 0)
            if e > 0 and f > 0:
                r[i] = min(e, f)
            elif e < 0 and f < 0:
                r[i] = max(e, f)
        common = r
        if not common:
            return ()
    return tuple(sorted(common.items()))


def pscale(p, f):
    if f == 0:
        return {}
    return {m: _norm(c * f) for m, c in p.items()}


def pmul(p, q):
    if len(p) * len(q) > 20000:
        raise Inconclusive("a product of symbolic sums grew too large")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _pmul_mono(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = _norm(v)
            else:
                r.pop(m, None)
    if _SQUARES:
        r = _reduce_squares(r)
    return r


def pconst(p):
    """the constant value of the polynomial or None"""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def numerator(p):
    """a polynomial without negative exponents that is zero exactly when p is (for denominators that are not zero)"""
    polys = {i: dict(key) for key, i in _POLY_ATOMS.items()}
    for _ in range(40):
        low = {}
        for m in p:
            for i, e in m:
                if e < low.get(i, 0):
                    low[i] = e
        if not low:
            break
        # the atom that was made last may contain the others
        i = max(low)
        base = polys.get(i, {((i, 1),): 1})
        powers = [{(): 1}]
        r = {}
        for m, c in p.items():
            e = dict(m).get(i, 0) - low[i]
            rest = tuple(x for x in m if x[0] != i)
            while len(powers) <= e:
                powers.append(pmul(powers[-1], base))
            r = padd(r, pmul({rest: c}, powers[e]))
        p = r
    if _SQUARES:
        p = _reduce_squares(p)
    return p


def substitute_known(p):
    """replaces inputs of which the path condition implies that they are 0, 1, -1 or equal to each other"""
    c = Ctx.current
    atoms = sorted({i for m in p for i, e in m})
    if c is None or c.check() != z3.sat:
        return p
    model = c.solver.model()
    seen = {}
    for i in atoms:
        if any(e < 0 for m in p for k, e in m if k == i):
            continue
        t = _zreal_atom(i)
        v = model.eval(t, model_completion=True)
        new = None
        for k in (0, 1, -1):
            if z3.is_rational_value(v) and v.as_fraction() == k and c.check(t != k) == z3.unsat:
                new = {(): k} if k else {}
                break
        if new is None:
            for j in seen.get(v.get_id(), ()):
                if c.check(t != _zreal_atom(j)) == z3.unsat:
                    new = {((j, 1),): 1}
                    break
        if new is None:
            seen.setdefault(v.get_id(), []).append(i)
            continue
        r = {}
        for m, k in p.items():
            e = dict(m).get(i, 0)
            q = {tuple(x for x in m if x[0] != i): k}
            for _ in range(e):
                q = pmul(q, new)
            r = padd(r, q)
        p = r
    return p


def vanishes(p):
    """the formula p == 0 in the theory of nonlinear real arithmetic"""
    if not p:
        return True
    before = OPTIONS["nra"]
    OPTIONS["nra"] = True
    try:
        return mkbool(preal(p) == 0)
    finally:
        OPTIONS["nra"] = before


def _zreal_atom(i):
    t = _ATOMS[i]
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def _zmul(a, b):
    if OPTIONS["nra"]:
        return a * b
    t = _MUL(a, b)
    c = Ctx.current
    if c is not None and a.get_id() != b.get_id():
        key = (t.get_id(),)
        if key not in c.axiom_done:
            c.axiom_done.add(key)
            c.assume_quiet(t == _MUL(b, a))
    return t


def _zinv(a):
    if OPTIONS["nra"]:
        return z3.RealVal(1) / a
    return _INV(a)


def _mono_real(m):
    factors = []
    for i, e in m:
        t = _zreal_atom(i)
        if e < 0:
            t = _zinv(t)
            e = -e
        factors += [t] * e
    r = factors[0]
    for f in factors[1:]:
        r = _zmul(r, f)
    return r


def integral(p):
    """whether a polynomial can have integer values only, because of its form"""
    return all(isinstance(c, int) and all(e > 0 and _ATOMS[i].is_int() for i, e in m) for m, c in p.items())


def preal(p):
    terms = []
    for m, c in p.items():
        cv = z3.RealVal(f"{c.numerator}/{c.denominator}" if isinstance(c, Fraction) else str(c))
        if m == ():
            terms.append(cv)
        elif c == 1:
            terms.append(_mono_real(m))
        else:
            terms.append(cv * _mono_real(m))
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def pint(p):
    terms = []
    for m, c in p.items():
        if m == ():
            terms.append(z3.IntVal(c))
        else:
            t = None
            for i, e in m:
                for _ in range(e):
                    t = _ATOMS[i] if t is None else t * _ATOMS[i]
            terms.append(t if c == 1 else z3.IntVal(c) * t)
    if not terms:
        return z3.IntVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


# --------------------------------------------------------------------------- scalars
class SymBool:
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def _bin(self, other, f):
        if isinstance(other, (bool, SymBool)) or type(other).__name__ in ("bool_", "bool"):
            return mkbool(f(self.z, to_z3bool(other)))
        return NotImplemented

    def __and__(self, o):
        return self._bin(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    logical_not = __invert__

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __hash__(self):
        return self.z.hash()

    def _int(self):
        return SymInt.atom(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._int() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._int() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __index__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return "<SymBool>"


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def to_z3bool(c):
    if isinstance(c, SymBool):
        return c.z
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, (SymInt, SymReal)):
        return to_z3bool(c != 0)
    return z3.BoolVal(bool(c))


def _is_int(x):
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return True
    return hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind in "iub"


def _is_float(x):
    if isinstance(x, (float, Fraction)):
        return True
    return hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind == "f"


def _is_complex(x):
    if isinstance(x, complex):
        return True
    return hasattr(x, "dtype") and getattr(x, "shape", None) == () and x.dtype.kind == "c"


def _num(x):
    """exact rational of a python number"""
    if isinstance(x, Fraction):
        return x
    if _is_int(x):
        return int(x)
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported("infinity or NaN met a symbolic real")
    return _norm(Fraction(x))


class _Sym:
    """common parts of SymInt and SymReal"""
    __slots__ = ("p", "_z")
    __array_priority__ = 1000

    def const(self):
        return pconst(self.p)

    def __hash__(self):
        return hash(tuple(sorted(self.p.items())))

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return f"<{type(self).__name__} {z3.simplify(self.z)}>" if len(self.p) < 20 else f"<{type(self).__name__} ...>"

    __str__ = __repr__

    def __pos__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __lt__(self, o):
        return _cmp(self, o, "<")

    def __le__(self, o):
        return _cmp(self, o, "<=")

    def __gt__(self, o):
        return _cmp(self, o, ">")

    def __ge__(self, o):
        return _cmp(self, o, ">=")

    def __eq__(self, o):
        return _cmp(self, o, "==")

    def __ne__(self, o):
        return _cmp(self, o, "!=")

    def logical_not(self):
        return self == 0


_PYCMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
          ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def _cmp(a, b, op):
    if b is None or isinstance(b, (str, bytes, tuple, list, dict)):
        return {"==": False, "!=": True}.get(op, NotImplemented)
    if isinstance(b, float) and (math.isinf(b) or math.isnan(b)):
        if math.isnan(b):
            return op == "!="
        return _PYCMP[op](0.0, b)
    if isinstance(b, SymBool):
        b = b._int()
    if isinstance(b, _Sym) or _is_int(b) or _is_float(b):
        pa = a.p
        pb = b.p if isinstance(b, _Sym) else ({(): _num(b)} if b else {})
        d = padd(pa, pb, -1)
        c = pconst(d)
        if c is not None:
            return _PYCMP[op](c, 0)
        ints = isinstance(a, SymInt) and not isinstance(b, SymReal) and all(isinstance(x, int) for x in d.values())
        if ints:
            # only keep positive coefficients on the left to keep the terms readable for the solver
            left = {m: c for m, c in d.items() if c > 0}
            right = {m: -c for m, c in d.items() if c < 0}
            za, zb = pint(left), pint(right)
        else:
            left = {m: c for m, c in d.items() if c > 0}
            right = {m: -c for m, c in d.items() if c < 0}
            za, zb = preal(left), preal(right)
        return mkbool(z3.simplify(_PYCMP[op](za, zb)) if ints else _PYCMP[op](za, zb))
    if isinstance(b, (SymComplex, complex)) or _is_complex(b):
        if op == "==":
            return SymComplex.of(a) == b
        if op == "!=":
            return SymComplex.of(a) != b
    return NotImplemented


class SymInt(_Sym):
    __slots__ = ()

    def __init__(self, p):
        self.p = p
        self._z = None

    @staticmethod
    def atom(term):
        return SymInt({((_atom(term), 1),): 1})

    @staticmethod
    def make(p):
        c = pconst(p)
        return SymInt(p) if c is None else c

    @property
    def z(self):
        if self._z is None:
            self._z = pint(self.p)
        return self._z

    def __index__(self):
        return ctx().concretise(self.z)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __ceil__(self):
        return self
    __floor__ = __ceil__

    def _coerce(self, o):
        if isinstance(o, SymInt):
            return o.p
        if isinstance(o, SymBool):
            return o._int().p
        if _is_int(o):
            return {(): int(o)} if o else {}
        return None

    def __add__(self, o):
        q = self._coerce(o)
        if q is None:
            return real(self) + o if _numeric(o) else NotImplemented
        return SymInt.make(padd(self.p, q))
    __radd__ = __add__

    def __sub__(self, o):
        q = self._coerce(o)
        if q is None:
            return real(self) - o if _numeric(o) else NotImplemented
        return SymInt.make(padd(self.p, q, -1))

    def __rsub__(self, o):
        q = self._coerce(o)
        if q is None:
            return o - real(self) if _numeric(o) else NotImplemented
        return SymInt.make(padd(q, self.p, -1))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        q = self._coerce(o)
        if q is None:
            return real(self) * o if _numeric(o) else NotImplemented
        return SymInt.make(pmul(self.p, q))
    __rmul__ = __mul__

    def __neg__(self):
        return SymInt(pscale(self.p, -1))

    negative = __neg__

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        return ite(self >= 0, self, -self)

    absolute = __abs__

    def __floordiv__(self, o):
        q = self._coerce(o)
        if q is None:
            return real(self) // o if _numeric(o) else NotImplemented
        d = pconst(q)
        if d is not None:
            if d == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if d == 1:
                return self
            if all(c % d == 0 for c in self.p.values()):
                return SymInt.make({m: c // d for m, c in self.p.items()})
            if d < 0:
                return (-self) // (-d)
            return SymInt.atom(pint(self.p) / z3.IntVal(d))
        return _intdiv(self, SymInt.make(q))[0]

    def __rfloordiv__(self, o):
        q = self._coerce(o)
        if q is None:
            return o // real(self) if _numeric(o) else NotImplemented
        return _intdiv(SymInt.make(q), self)[0]

    def __mod__(self, o):
        q = self._coerce(o)
        if q is None:
            return real(self) % o if _numeric(o) else NotImplemented
        d = pconst(q)
        if d is not None:
            if d == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if d == 1:
                return 0
            if d > 0:
                if all(c % d == 0 for c in self.p.values()):
                    return 0
                return SymInt.atom(pint(self.p) % z3.IntVal(d))
            return self - (self // o) * o
        return _intdiv(self, SymInt.make(q))[1]

    def __rmod__(self, o):
        q = self._coerce(o)
        if q is None:
            return o % real(self) if _numeric(o) else NotImplemented
        return _intdiv(SymInt.make(q), self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return real(self) / o

    def __rtruediv__(self, o):
        return o / real(self)

    def __pow__(self, o):
        if _is_int(o) and 0 <= o <= 8:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        return real(self) ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    # methods that numpy calls on the elements of object arrays
    def sqrt(self):
        return real(self).sqrt()

    def fabs(self):
        return abs(real(self))


def _intdiv(a, b):
    """python floor division of two symbolic integers"""
    zero = b == 0
    if zero is True or (zero is not False and bool(zero)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if bool(b < 0):
        q, r = _intdiv(-a, -b)
        return q, -r
    az = a.z if isinstance(a, SymInt) else z3.IntVal(a)
    bz = b.z if isinstance(b, SymInt) else z3.IntVal(b)
    c = ctx()
    key = (az.get_id(), bz.get_id())
    known = c.divisions.get(key)
    if known is None:
        q = c.fresh("quot", z3.IntSort())
        r = c.fresh("rem", z3.IntSort())
        c.assume_quiet(z3.And(az == bz * q + r, r >= 0, r < bz))
        known = c.divisions[key] = (q, r, az, bz)
    return SymInt.atom(known[0]), SymInt.atom(known[1])


def _numeric(o):
    return isinstance(o, (_Sym, SymComplex, SymBool)) or _is_int(o) or _is_float(o) or _is_complex(o)


def zreal(x):
    if isinstance(x, _Sym):
        return preal(x.p)
    n = _num(x)
    return z3.RealVal(f"{n.numerator}/{n.denominator}" if isinstance(n, Fraction) else str(n))


def zint(x):
    return x.z if isinstance(x, SymInt) else z3.IntVal(int(x))


class SymReal(_Sym):
    """symbolic real number. `np` marks a value that behaves like numpy.float64 (no ZeroDivisionError)"""
    __slots__ = ("np",)

    def __init__(self, p, np=False):
        self.p = p
        self._z = None
        self.np = np

    @staticmethod
    def atom(term, np=False):
        return SymReal({((_atom(term), 1),): 1}, np)

    @property
    def z(self):
        if self._z is None:
            self._z = preal(self.p)
        return self._z

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(numpy.float64)

    def _coerce(self, o):
        if isinstance(o, _Sym):
            return o.p
        if isinstance(o, SymBool):
            return o._int().p
        if _is_int(o) or _is_float(o):
            n = _num(o)
            return {(): n} if n else {}
        return None

    def _flag(self, o):
        return self.np or getattr(o, "np", False) or hasattr(o, "dtype") and not isinstance(o, _Sym)

    def __add__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        q = self._coerce(o)
        if q is None:
            return SymComplex.of(self) + o if _numeric(o) else NotImplemented
        return SymReal(padd(self.p, q), self._flag(o))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return -o
        q = self._coerce(o)
        if q is None:
            return SymComplex.of(self) - o if _numeric(o) else NotImplemented
        return SymReal(padd(self.p, q, -1), self._flag(o))

    def __rsub__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return o
        q = self._coerce(o)
        if q is None:
            return o - SymComplex.of(self) if _numeric(o) else NotImplemented
        return SymReal(padd(q, self.p, -1), self._flag(o))

    def __mul__(self, o):
        q = self._coerce(o)
        if q is None:
            return SymComplex.of(self) * o if _numeric(o) else NotImplemented
        return SymReal(pmul(self.p, q), self._flag(o))
    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(pscale(self.p, -1), self.np)

    negative = __neg__

    def reciprocal(self):
        p = self.p
        if len(p) == 1:
            (m, c), = p.items()
            return SymReal({tuple((i, -e) for i, e in m): _norm(Fraction(1) / c)}, self.np)
        common = () if OPTIONS["nra"] else _common_factor(p)
        if common:
            inverse = tuple((i, -e) for i, e in common)
            r = SymReal({_pmul_mono(m, inverse): c for m, c in p.items()}).reciprocal()
            return SymReal({_pmul_mono(m, inverse): c for m, c in r.p.items()}, self.np)
        # canonical sum atom, scaled to a leading coefficient of one
        items = sorted(p.items())
        lead = items[0][1]
        key = tuple((m, _norm(Fraction(c) / lead)) for m, c in items)
        i = _POLY_ATOMS.get(key)
        if i is None:
            i = _atom(preal(dict(key)))
            _POLY_ATOMS[key] = i
        return SymReal({((i, -1),): _norm(Fraction(1) / lead)}, self.np)

    def __truediv__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return SymReal({}, self.np)
        q = self._coerce(o)
        if q is None:
            return SymComplex.of(self) / o if _numeric(o) else NotImplemented
        return _div(self, SymReal(q, getattr(o, "np", False)), self._flag(o))

    def __rtruediv__(self, o):
        q = self._coerce(o)
        if q is None:
            return o / SymComplex.of(self) if _numeric(o) else NotImplemented
        return _div(SymReal(q), self, self._flag(o))

    def __floordiv__(self, o):
        return (self / o).__floor__() * 1.0

    def __rfloordiv__(self, o):
        return (o / self).__floor__() * 1.0

    def __mod__(self, o):
        return uf("mod", self, o) if _numeric(o) else NotImplemented

    def __rmod__(self, o):
        return uf("mod", o, self) if _numeric(o) else NotImplemented

    def __pow__(self, o):
        return power(self, o) if _numeric(o) else NotImplemented

    def __rpow__(self, o):
        return power(o, self) if _numeric(o) else NotImplemented

    def __abs__(self):
        c = self.const()
        if c is not None:
            return SymReal({(): abs(c)} if c else {}, self.np)
        if len(self.p) == 1:
            (m, k), = self.p.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in _SQUARES:
                return SymReal({m: abs(k)}, self.np)      # square roots and absolute values are not negative
        r = ite(self >= 0, self, -self)
        return _square_is(r, pmul(self.p, self.p)) if isinstance(r, SymReal) else r

    fabs = absolute = __abs__

    def __floor__(self):
        c = self.const()
        if c is not None:
            return math.floor(c)
        if integral(self.p):
            return SymInt.make(self.p)
        return SymInt.atom(z3.ToInt(self.z))

    def __ceil__(self):
        return -((-self).__floor__())

    def floor(self):
        return real(self.__floor__(), True)

    def ceil(self):
        return real(self.__ceil__(), True)

    def rint(self):
        return real(self.__round__(), True)

    def __trunc__(self):
        c = self.const()
        if c is not None:
            return math.trunc(c)
        if integral(self.p):
            return SymInt.make(self.p)
        return ite(self >= 0, self.__floor__(), self.__ceil__())

    def __int__(self):
        r = self.__trunc__()
        return r if isinstance(r, int) else r.__index__()

    def is_integer(self):
        return self == real(self.__floor__())

    def __round__(self, n=None):
        if n not in (None, 0):
            raise Unsupported("round() to decimals")
        c = self.const()
        if c is not None:
            return round(Fraction(c))
        if integral(self.p):
            return SymInt.make(self.p)
        if ctx().tokens is not None:
            return _rounded(self)
        f = SymInt.atom(z3.ToInt((self + Fraction(1, 2)).z))
        tie = real(f) == self + Fraction(1, 2)
        if tie is False:
            return f
        odd = (f % 2) == 1
        both = mkbool(z3.And(to_z3bool(tie), to_z3bool(odd)))
        return ite(both, f - 1, f)

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported("a symbolic real had to become a concrete float")

    def __complex__(self):
        return complex(float(self))

    def item(self):
        return self

    def astype(self, t):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __getattr__(self, name):
        # numpy calls the ufunc's name as a method on elements of object arrays
        if name in UNARY_UF:
            return lambda: unary(name, self)
        raise AttributeError(name)


UNARY_UF = ("sin", "cos", "tan", "exp", "exp2", "log", "log2", "log10", "sinh", "cosh", "tanh", "arcsin", "arccos",
            "arctan", "arcsinh", "arccosh", "arctanh", "sqrt", "cbrt", "expm1", "log1p", "square")


def _div(a, b, np_):
    c = b.const()
    if c is not None:
        if c == 0:
            if np_:
                return uf("inv0", a)
            raise ZeroDivisionError("float division by zero")
        r = SymReal(pscale(a.p, _norm(Fraction(1) / c)), np_)
        return r
    if not np_:
        if bool(b == 0):
            raise ZeroDivisionError("float division by zero")
    r = b.reciprocal()
    return SymReal(pmul(a.p, r.p), np_)


def real(x, np=False):
    """x as a SymReal"""
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(x.p, np)
    if isinstance(x, SymBool):
        return SymReal(x._int().p, np)
    n = _num(x)
    return SymReal({(): n} if n else {}, np)


_UFS = {}


def uf(name, *args):
    """an uninterpreted real function of the arguments (congruence is all that is known about it)"""
    if any(isinstance(a, (SymComplex, complex)) for a in args):
        args2 = []
        for a in args:
            a = SymComplex.of(a)
            args2 += [a.re, a.im]
        return SymComplex(uf(name + ".re", *args2), uf(name + ".im", *args2))
    f = _UFS.get((name, len(args)))
    if f is None:
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        _UFS[(name, len(args))] = f
    return SymReal.atom(f(*(zreal(_sorted(a)) for a in args)), True)


def _sorted(a):
    """the same value with its summands in a canonical order, so that equal arguments become the same term"""
    if isinstance(a, SymReal) and len(a.p) > 1:
        return SymReal(dict(sorted(a.p.items())), a.np)
    return a


def unary(name, x):
    """a transcendental function of a symbolic real"""
    x = real(x) if not isinstance(x, SymComplex) else x
    if isinstance(x, SymComplex):
        if name == "square":
            return x * x
        if name == "exp":
            e = unary("exp", x.re) if pconst(real(x.re).p) != 0 else 1
            return SymComplex(e * unary("cos", x.im), e * unary("sin", x.im))
        return uf(name, x)
    if name == "square":
        return x * x
    c = x.const()
    if c is not None:
        if c == 0 and name in ("sin", "tan", "sinh", "tanh", "arcsin", "arctan", "sqrt", "cbrt", "expm1", "log1p"):
            return SymReal({}, True)
        if c == 0 and name in ("cos", "exp", "cosh", "exp2"):
            return SymReal({(): 1}, True)
        import numpy
        v = float(getattr(numpy, name)(float(c)))
        return SymReal({(): _norm(Fraction(v).limit_denominator(10 ** 15))} if v else {}, True)
    if name in ("log", "log10", "log2"):
        known = _log_of_power(x)
        if known:
            f = getattr(math, name)(known[0])
            return real(known[1]) * (round(f) if abs(f - round(f)) < 1e-14 else f)
        return _log_is(uf(name, x), {"log": math.e, "log2": 2.0, "log10": 10.0}[name], x)
    if name in ("exp", "exp2"):
        known = _power_of_log(math.e if name == "exp" else 2.0, x)
        if known is not None:
            return real(known, True)
        if name == "exp":
            # exp(n * log(y) + z) = y ** n * exp(z)
            for m, k in x.p.items():
                if len(m) == 1 and m[0][1] == 1 and _LOGS.get(m[0][0], (0,))[0] == math.e and not 0 <= k < 1:
                    n = math.floor(k)
                    y = _LOGS[m[0][0]][1]
                    y = y if n > 0 else real(y, True).reciprocal()
                    r = unary(name, SymReal(padd(x.p, {m: n}, -1), x.np))
                    for _ in range(min(abs(n), 9)):
                        r = r * y
                    if abs(n) < 9:
                        return r
    fractions = partial_fractions(x.p)
    if fractions is not x.p:
        return unary(name, SymReal(fractions, x.np))
    if name == "expm1":
        return unary("exp", x) - 1
    if name == "log1p":
        return unary("log", x + 1)
    x = _known_argument(name, x)
    hook = UNARY_HOOKS.get(name)
    if hook is not None:
        r = hook(x)
        if r is not None:
            return r
    r = uf(name, x)
    if name == "sqrt":
        _square_is(r, x.p)
    if name in ("exp", "exp2"):
        _power_is(r, math.e if name == "exp" else 2.0, x)
    ax = UNARY_AXIOMS.get(name)
    if ax is not None and Ctx.current is not None:
        for f in ax(x, r):
            ctx().assume_quiet(f)
    return r


ROUNDING = 1e-12


def _known_argument(name, x):
    """an earlier argument of the function, if this one differs from it by the rounding of its constants only"""
    c = Ctx.current
    if c is None:
        return x
    name = "sin" if name == "cos" else name
    for sign in (1, -1) if name == "sin" else (1,):
        known = c.arguments.setdefault((name, frozenset(x.p)), [])
        for y in known:
            if all(abs(k - sign * y.p[m]) <= ROUNDING * abs(k) for m, k in x.p.items()):
                return y if sign == 1 else -y
    known.append(x)
    return x


def _rounded(x):
    """the nearest integer as a new variable (which the solver handles better than its own function for that)"""
    c = ctx()
    key = frozenset(x.p.items())
    r = c.rounded.get(key)
    if r is None:
        r = c.rounded[key] = c.fresh("rounded", z3.IntSort())
        twice = 2 * x.z
        c.assume_quiet(z3.And(twice - 1 <= 2 * z3.ToReal(r), 2 * z3.ToReal(r) <= twice + 1))
        c.assume_quiet(z3.Implies(z3.Or(twice - 1 == 2 * z3.ToReal(r), 2 * z3.ToReal(r) == twice + 1), r % 2 == 0))
    return SymInt.atom(r)


def _sin(x):
    # odd function: normalise the sign of the leading coefficient
    lead = sorted(x.p.items())[0][1]
    if lead < 0:
        x = -x
    r = uf("sin", x)
    c = uf("cos", x)
    _square_is(r, padd({(): 1}, pmul(c.p, c.p), -1))
    if Ctx.current is not None:
        ctx().assume_quiet(z3.Implies(x.z == 0, z3.And(r.z == 0, c.z == 1)))
    return -r if lead < 0 else r


def _cos(x):
    lead = sorted(x.p.items())[0][1]
    if lead < 0:
        return uf("cos", -x)
    return None


UNARY_HOOKS = {"sin": _sin, "cos": _cos}
UNARY_AXIOMS = {
    "sqrt": lambda x, r: [r.z >= 0] + ([r.z * r.z == x.z] if OPTIONS["nra"] else []),
    "exp": lambda x, r: [r.z > 0, z3.Implies(x.z == 0, r.z == 1)],
    "cos": lambda x, r: [z3.Implies(x.z == 0, r.z == 1)],
    "exp2": lambda x, r: [r.z > 0],
}


def power(a, b):
    if isinstance(a, SymComplex):
        if _is_int(b) and abs(int(b)) <= 8:
            r = 1
            for _ in range(abs(int(b))):
                r = a * r
            return r if b >= 0 else 1 / r
        return uf("power", a, b)
    if isinstance(b, _Sym):
        c = b.const()
        if c is not None:
            b = c
    if isinstance(b, SymComplex):
        return uf("power", a, b)
    if _is_float(b) and float(b).is_integer():
        b = int(b)
    if _is_int(b) and abs(int(b)) <= 12 and isinstance(a, _Sym):
        a = real(a)
        n = int(b)
        r = SymReal({(): 1}, a.np)
        for _ in range(abs(n)):
            r = r * a
        return r if n >= 0 else 1.0 / r
    if _is_float(b) and float(b) == 0.5:
        return unary("sqrt", real(a))
    base = real(a).const() if not isinstance(a, complex) else None
    if base is not None and base > 0 and isinstance(b, _Sym):
        known = _power_of_log(float(base), real(b))
        if known is not None:
            return real(known, True)
        r = uf("power", a, b)
        if Ctx.current is not None:
            ctx().assume_quiet(r.z > 0)
        return _power_is(r, base, real(b))
    return uf("power", a, b)


class SymComplex:
    """a complex number with symbolic parts"""
    __slots__ = ("re", "im")
    __array_priority__ = 1000
    np = True

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, complex) or _is_complex(x):
            return SymComplex(float(x.real), float(x.imag))
        return SymComplex(x, 0)

    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)

    def __add__(self, o):
        if not _numeric(o):
            return NotImplemented
        o = SymComplex.of(o)
        return SymComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        if not _numeric(o):
            return NotImplemented
        o = SymComplex.of(o)
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        if not _numeric(o):
            return NotImplemented
        return SymComplex.of(o) - self

    def __mul__(self, o):
        if not _numeric(o):
            return NotImplemented
        o = SymComplex.of(o)
        return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    negative = __neg__

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    def __truediv__(self, o):
        if not _numeric(o):
            return NotImplemented
        o = SymComplex.of(o)
        if not isinstance(o.im, (_Sym,)) and o.im == 0 or isinstance(o.im, (SymReal, SymInt)) and not o.im.p:
            d = real(o.re, True)
            return SymComplex(_div(real(self.re), d, True), _div(real(self.im), d, True))
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        d = real(d, True)
        return SymComplex(_div(real(n.re), d, True), _div(real(n.im), d, True))

    def __rtruediv__(self, o):
        if not _numeric(o):
            return NotImplemented
        return SymComplex.of(o) / self

    def __pow__(self, o):
        return power(self, o) if _numeric(o) else NotImplemented

    def __rpow__(self, o):
        return uf("power", o, self) if _numeric(o) else NotImplemented

    def __eq__(self, o):
        if not _numeric(o):
            return False
        o = SymComplex.of(o)
        return mkbool(z3.simplify(z3.And(to_z3bool(self.re == o.re), to_z3bool(self.im == o.im))))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash((self.re, self.im))

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __abs__(self):
        return unary("sqrt", real(self.re * self.re + self.im * self.im, True))

    absolute = __abs__

    def __getattr__(self, name):
        if name in UNARY_UF:
            return lambda: unary(name, self)
        raise AttributeError(name)

    def __repr__(self):
        return f"<SymComplex {self.re} {self.im}>"

    def __format__(self, spec):
        return "<sym>"


def ite(cond, a, b):
    """If-term (no fork)"""
    if isinstance(cond, bool):
        return a if cond else b
    if cond is True or cond is False:
        return a if cond else b
    if not isinstance(cond, (SymBool, z3.BoolRef)):
        return a if cond else b
    z = to_z3bool(cond)
    if z3.is_true(z):
        return a
    if z3.is_false(z):
        return b
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(z, to_z3bool(a), to_z3bool(b)))
    if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)) or _is_complex(a) or _is_complex(b):
        a, b = SymComplex.of(a), SymComplex.of(b)
        return SymComplex(ite(cond, a.re, b.re), ite(cond, a.im, b.im))
    if isinstance(a, SymBool):
        a = a._int()
    if isinstance(b, SymBool):
        b = b._int()
    if (isinstance(a, SymInt) or _is_int(a)) and (isinstance(b, SymInt) or _is_int(b)):
        pa = a.p if isinstance(a, SymInt) else ({(): int(a)} if a else {})
        pb = b.p if isinstance(b, SymInt) else ({(): int(b)} if b else {})
        if pa == pb:
            return a
        # factor the common part out of the If
        common = {m: c for m, c in pa.items() if pb.get(m) == c}
        pa2 = padd(pa, common, -1)
        pb2 = padd(pb, common, -1)
        t = SymInt.atom(z3.If(z, pint(pa2), pint(pb2)))
        return SymInt.make(padd(t.p, common))
    if (isinstance(a, _Sym) or _numeric(a)) and (isinstance(b, _Sym) or _numeric(b)):
        ra, rb = real(a), real(b)
        if ra.p == rb.p:
            return ra
        if ctx().tokens is not None and integral(ra.p) and integral(rb.p):
            return real(ite(cond, SymInt.make(ra.p), SymInt.make(rb.p)), ra.np or rb.np)
        return SymReal.atom(z3.If(z, ra.z, rb.z), ra.np or rb.np)
    if a == b:
        return a
    raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def sym_min(a, b):
    return ite(a <= b, a, b)


def sym_max(a, b):
    return ite(a >= b, a, b)


def is_sym(x):
    return isinstance(x, (_Sym, SymBool, SymComplex))


def b_and(*xs):
    xs = [to_z3bool(x) for x in xs]
    return mkbool(z3.simplify(z3.And(*xs))) if xs else True


def b_or(*xs):
    xs = [to_z3bool(x) for x in xs]
    return mkbool(z3.simplify(z3.Or(*xs))) if xs else False


def b_not(x):
    return (not x) if isinstance(x, bool) else mkbool(z3.Not(to_z3bool(x)))


def explore(fn, limits, stats):
    """runs fn once per feasible path. fn gets the path's context. Returns the failures."""
    worklist = [[]]
    failures = []
    while worklist:
        if stats.paths >= limits.get("max_paths", 20000):
            raise Inconclusive("path limit reached")
        prefix = worklist.pop()
        c = Ctx(list(prefix), worklist, stats, limits)
        Ctx.current = c
        try:
            stop = fn(c)
        except PathAbort:
            continue
        finally:
            Ctx.current = None
        stats.paths += 1
        if stop:
            # a counterexample that the real code does not confirm does not end the search on the other paths
            if stop[0] == "spurious" and len(failures) + 1 < limits.get("max_spurious", 5):
                failures.append(stop)
                continue
            failures.insert(0, stop)
            break
    return failures


def _array_operands(cls):
    """operators between a symbolic scalar and a numpy array yield arrays of symbolic elements"""
    import numpy

    def wrap(name, f):
        def g(self, o):
            if isinstance(o, numpy.ndarray) and o.shape != ():
                from .npobj import OA
                box = numpy.empty((), object)
                box[()] = self
                return getattr(box.view(OA), name)(o)
            return f(self, o)
        g.__name__ = name
        return g
    for op in ("add", "sub", "mul", "truediv", "pow", "mod", "floordiv"):
        for name in (f"__{op}__", f"__r{op}__"):
            f = getattr(cls, name, None)
            if f is not None:
                setattr(cls, name, wrap(name, f))


for _cls in (SymInt, SymReal, SymComplex):
    _array_operands(_cls)
