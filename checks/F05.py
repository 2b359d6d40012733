"""Filters are equal exactly if they are built of the same terms, parameters and labels."""
from .common import *
from .filters import *

ASSUMPTIONS = REALS + ["the coefficients are arbitrary real (or complex) numbers, the frequency is an arbitrary positive number", "denominators are not zero",
                       "terms of up to three nested terms; bands with up to three supporting points"]
OPT = {"core": {"nra": True}, "timeout_ms": 5000}
KINDS = ("C", "K", "P", "PT", "E", "ET", "B", "S", "ST", "S2", "S2T", "D", "DT", "DC", "M", "M2", "M2T", "Q", "QT", "A", "AT", "N", "NT")
OTHERS = (None, 0.0, 1.0, "Filter", (), object())


class Recorder:
    """notes the numbers that the harness draws"""

    def __init__(self, w):
        self.w, self.drawn = w, []

    def __getattr__(self, name):
        return getattr(self.w, name)

    def real(self, *args, **kwargs):
        r = self.w.real(*args, **kwargs)
        self.drawn.append(r)
        return r


def equality(w, a, b):
    """a == b, after checking that all ways of comparing agree"""
    r = bool(a == b)
    w.require(bool(b == a) == r, "symmetric")
    w.require(bool(a != b) != r and bool(b != a) != r, "inequality is the negation")
    return r


def soundness(kind):
    """equal filters have the same values everywhere"""
    def h(w):
        f = frequency(w)
        other = w.choice("other kind", KINDS if kind in w.limit(("C", "P", "B", "Q"), KINDS) else KINDS[KINDS.index(kind):][:w.limit(4, 30)])
        a, fa = one(w, kind, "a", f)
        b, fb = one(w, other, "b", f)
        b = w.sumpf.Filter(transfer_functions=b.transfer_functions(), labels=a.labels())
        if equality(w, a, b):
            s = laplace(w, f)
            va, vb = fa(s), fb(s)
            w.require(w.equal(va, vb), "equal filters have equal transfer functions")
    return h


def completeness(w):
    """filters of the same terms with equal parameters are equal"""
    f = frequency(w)
    kind = w.choice("kind", KINDS)
    ra, rb = Recorder(w), Recorder(w)
    a, fa = one(ra, kind, "a", f)
    b, fb = one(rb, kind, "b", f)
    w.require(len(ra.drawn) == len(rb.drawn), "harness")
    labels = w.choice("labels", ("same", "other"))
    b = w.sumpf.Filter(transfer_functions=b.transfer_functions(), labels=a.labels() if labels == "same" else ("x",))
    for x, y in zip(ra.drawn, rb.drawn):
        w.assume(x == y)
    w.require(equality(w, a, b) == (labels == "same"), "filters of equal terms are equal, unless the labels differ")


def parts(w):
    """each part of a nested term counts, also additional ones"""
    f = frequency(w)
    F = w.sumpf.Filter
    cls = w.choice("class", ("Sum", "Product"))
    n, m = w.choice("parts", (2, 3)), w.choice("other parts", (2, 3, 4))
    terms = [term(w, "P" if i % 2 else "E", f"t{i}", f, True) for i in range(4)]
    changed = w.choice("changed", range(-1, m))
    others = list(terms)
    if changed >= 0:
        others[changed] = term(w, "E" if w.choice("kind", ("E", "P")) == "E" else "P", "u", f, True)
    make = getattr(F, cls)
    a, b = F((make(tuple(t for t, _ in terms[:n])),)), F((make(tuple(t for t, _ in others[:m])),))
    if equality(w, a, b):
        w.require(n == m, "the number of parts is the same")
        if changed >= 0:
            s = laplace(w, f)
            w.require(w.equal(terms[changed][1](s), others[changed][1](s)), "the parts are equal")
    else:
        w.require(n != m or changed >= 0, "equal parts")


def channels(w):
    """each channel counts, and their order"""
    f = frequency(w)
    kinds = w.choice("kinds", (("P", "E"), ("P", "P"), ("C", "B"), ("Q", "P"), ("C", "C")))
    terms = [term(w, k, n, f) for k, n in zip(kinds, "ab")]
    F = w.sumpf.Filter
    a = F(transfer_functions=[t for t, _ in terms], labels=("x", "y"))
    how = w.choice("other", ("other first", "other second", "swapped", "first only", "second only", "one more", "swapped labels", "same", "list", "no channel"))
    ts = [t for t, _ in terms]
    want = None
    if how in ("other first", "other second"):
        i = int(how == "other second")
        t, fn = term(w, kinds[i], "c", f)
        b = F(transfer_functions=[t if k == i else u for k, u in enumerate(ts)], labels=("x", "y"))
        if equality(w, a, b):
            s = laplace(w, f)
            w.require(w.equal(fn(s), terms[i][1](s)), "equal after replacing a channel only if that is equal")
        return
    if how == "swapped":
        b = F(transfer_functions=ts[::-1], labels=("x", "y"))
    elif how == "first only":
        b, want = F(transfer_functions=ts[:1], labels=("x", "y")[:1]), False
    elif how == "second only":
        b, want = F(transfer_functions=ts[1:], labels=("y",)), False
    elif how == "one more":
        b, want = F(transfer_functions=ts + ts[1:], labels=("x", "y", "y")), False
    elif how == "swapped labels":
        b, want = F(transfer_functions=ts, labels=("y", "x")), False
    elif how == "no channel":
        b, want = F(transfer_functions=(), labels=()), False
    else:
        b, want = F(transfer_functions=tuple(ts) if how == "same" else ts, labels=("x", "y")), True
    r = equality(w, a, b)
    if want is not None:
        w.require(r == want, how)
    elif r:
        s = laplace(w, f)
        x, y = [fn(s) for _, fn in terms]
        w.require(w.equal(x, y), "equal after exchanging the channels only if these are equal")


def zero(w):
    """a zero constant equals the terms that vanish for any frequency, and only these"""
    f = frequency(w)
    F = w.sumpf.Filter
    kind = w.choice("kind", ("difference", "product", "negative", "absolute", "bands", "no bands", "sum", "P", "E", "Q", "S2"))
    p, fn = term(w, "P", "p", f, True)
    if kind == "difference":
        t = p - p
    elif kind == "product":
        t = p * F.Constant(0.0)
    elif kind == "negative":
        t = -(p - p)
    elif kind == "absolute":
        t = abs(p - p)
    elif kind == "sum":
        t = (p - p) + (p - p)
    elif kind == "bands":
        t = F.Bands(xs=w.np.array([1.0, 2.0]), ys=w.np.array([0.0, 0.0]), interpolation=3, extrapolation=3)
    elif kind == "no bands":
        t = F.Bands(xs=w.np.array([]), ys=w.np.array([]), interpolation=3, extrapolation=3)
    else:
        t, fn = term(w, kind, "t", f, True)
    a = F(transfer_functions=(F.Constant(w.choice("zero", (0.0, 0))),))
    b = F(transfer_functions=(t,))
    r = equality(w, a, b)
    if kind in ("P", "E", "Q", "S2"):
        if r:
            w.require(w.equal(fn(laplace(w, f)), 0.0), "zero at every frequency")
    else:
        w.require(r, "equal to the zero constant")


def others(w):
    """comparing with something else is no error"""
    f = frequency(w)
    kind = w.choice("kind", KINDS)
    a, fa = one(w, kind, "a", f)
    t = a.transfer_functions()[0]
    other = w.choice("other", range(len(OTHERS) + 2))
    other = w.sumpf.Signal() if other == len(OTHERS) else w.sumpf.Spectrum() if other == len(OTHERS) + 1 else OTHERS[other]
    w.require((a == other) is False and (a != other) is True, "a filter does not equal something else")
    w.require((t == other) is False and (t != other) is True, "a term does not equal something else")
    w.require((t == a) is False and (a == t) is False, "a term is not a filter")


def bands_(w):
    """Bands are equal if the supporting points and the interpolation are"""
    I = w.sumpf.Bands.interpolations
    n, m = w.choice("points", (0, 1, 2, 3)), w.choice("other points", (0, 1, 2, 3))

    def draw(name, n):
        xs = [w.real(name + "x0", 0.1, 1000)] if n else []
        for i in range(1, n):
            xs.append(xs[-1] + w.real(f"{name}d{i}", 0.1, 1000))
        ys = [w.real(f"{name}y{i}", -10, 10) for i in range(n)]
        return xs, ys
    (xa, ya), (xb, yb) = draw("a", n), draw("b", m)
    ia, ea, ib, eb = I.LINEAR, I.ZERO, w.choice("interpolation", (I.LINEAR, I.LOG_X)), w.choice("extrapolation", (I.ZERO, I.ONE))
    T = w.sumpf.Filter.Bands
    a = w.sumpf.Filter((T(xs=w.np.array(xa), ys=w.np.array(ya), interpolation=ia, extrapolation=ea),))
    b = w.sumpf.Filter((T(xs=w.np.array(xb), ys=w.np.array(yb), interpolation=ib, extrapolation=eb),))
    want = n == m and ia is ib and ea is eb and all(bool(x == y) for x, y in zip(xa, xb)) and all(bool(x == y) for x, y in zip(ya, yb))
    w.require(equality(w, a, b) == want, "equality")


def case(name, fn, bounds, **kw):
    return Case(name, fn, backend="B", fallback=None, options=OPT, time_s=150, max_paths=8000, bounds=bounds)


CASES = [case(f"equal values of {k}", soundness(k), "two one-channel filters") for k in KINDS] + \
        [case("equal terms", completeness, "two one-channel filters"), case("channels", channels, "two channels"), case("parts", parts, "2..4 parts"), case("zero", zero, "one channel"),
         case("other objects", others, "one channel"), case("bands", bands_, "0..3 supporting points")]
