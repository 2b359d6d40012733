"""Filters are the same after they have been saved and loaded."""
from .common import *
from .filters import *
from .storage import *

ASSUMPTIONS = REALS + ["the coefficients are arbitrary real (or complex) numbers that are written with or without an exponent and with up to 17 digits",
                       "terms of up to three nested terms; the text of a number identifies it"]
KINDS = ("C", "K", "P", "PT", "E", "ET", "B", "S", "ST", "S2", "S2T", "D", "DT", "DC", "M", "M2", "M2T", "Q", "QT", "A", "AT", "N", "NT")
FILES = (("f.json", "TEXT_JSON"), ("f.json", None), ("f.js", None), ("f.txt", "TEXT_REPR"), ("f.txt", None), ("f", "TEXT_JSON"), ("f.dat", "TEXT_REPR"))


class Numbers:
    """draws numbers in the format of the texts"""

    def __init__(self, w, positive=False):
        self.w, self.positive = w, positive

    def __getattr__(self, name):
        return getattr(self.w, name)

    def real(self, name, lo=None, hi=None, np=False):
        r = self.w.number(name)
        if self.positive:
            self.w.assume(r > 0)
        return r


def roundtrip(w, filter_, exact=True):
    name, fmt = w.choice("file", w.limit(FILES[:1] + FILES[3:4] + FILES[5:], FILES))
    forget(w)
    got = stored(w, "Filter", filter_, name, fmt)
    w.require(isinstance(got, w.sumpf.Filter), "a filter")
    w.require(got.labels() == filter_.labels(), "labels")
    w.require(len(got) == len(filter_), "number of channels")
    if exact:
        w.require(w.and_(got == filter_, filter_ == got), "equal after loading")
    return got


def terms(kind):
    def h(w):
        w.texts()
        f = frequency(w)
        a, fn = one(Numbers(w), kind, "a", f)
        got = roundtrip(w, a)
        is_value(w, got, f, [fn(laplace(w, f))])
    return h


def coefficients(w):
    """kinds of numbers and sequences as parameters"""
    w.texts(w.limit(("small", "long"), ("small", "long", "plain", "large")))
    n = Numbers(w, True)
    F = w.sumpf.Filter
    f = frequency(w)
    x, y, z = n.real("x"), n.real("y"), n.real("z")
    if w.choice("sign", ("+", "-")) == "-":
        x, y = -x, -y
    values = {"real": x, "complex": w.complex_(x, y), "imaginary": w.complex_(0.0, y), "integer": 3, "negative integer": -2, "numpy integer": numpy.int64(5), "float32": numpy.float32(1.5), "zero": 0}
    v = values[w.choice("number", tuple(values))]
    what = w.choice("parameter", ("constant", "exponent", "list", "tuple", "array", "first", "ys", "one point"))
    if what == "constant":
        t, want = F.Constant(v), v
    elif what == "exponent":
        w.assume(w.not_(v == 0)) if hasattr(v, "im") else None
        t, want = F.Exp(v), exponential(w, v * laplace(w, f))
    elif what == "first":
        t, want = F.Polynomial([v, x, z]), v * laplace(w, f) * laplace(w, f) + x * laplace(w, f) + z
    elif what in ("list", "tuple", "array"):
        c = [z, x, v]
        t = F.Polynomial(c if what == "list" else tuple(c) if what == "tuple" else w.np.array(c))
        want = z * laplace(w, f) * laplace(w, f) + x * laplace(w, f) + v
    else:
        k = 2 if what == "ys" else 1
        t = F.Bands(xs=w.np.array([f, 2.0 * f][:k]), ys=w.np.array([v, z][:k]), interpolation=w.sumpf.Bands.interpolations.LINEAR, extrapolation=w.sumpf.Bands.interpolations.ONE)
        want = v
    got = roundtrip(w, F((t,), labels=("l",)))
    is_value(w, got, f, [want])


def operators(w):
    """the results of operators"""
    w.texts(("long",))
    n = Numbers(w, True)
    f = frequency(w)
    ka, kb = w.choice("first", ("C", "P", "E", "B", "QT", "S", "D")), w.choice("second", ("C", "PT", "ET", "M", "N", "same"))
    (a, fa) = one(n, ka, "a", f, True)
    (b, fb) = (a, fa) if kb == "same" else one(n, kb, "b", f, True)
    op = w.choice("operator", BINARY + UNARY)
    s = laplace(w, f)
    if op in BINARY:
        want = binary(w, op, fa(s), fb(s))
        r = OP[op](a, b)
    else:
        want = unary(w, op, fa(s))
        r = apply(op, a)
    got = roundtrip(w, r, exact=False)
    is_value(w, got, f, [want])


def channels(w):
    """labels and several channels"""
    w.texts(("plain", "small"))
    n = Numbers(w, True)
    f = frequency(w)
    kinds = w.choice("channels", ((), ("P",), ("C", "E"), ("B", "P", "QT")))
    parts = [term(n, k, f"t{i}", f) for i, k in enumerate(kinds)]
    i = w.choice("label", range(len(LABELS)))
    labels = tuple(LABELS[(i + k) % len(LABELS)] for k in range(len(kinds)))
    filter_ = w.sumpf.Filter(transfer_functions=[t for t, _ in parts], labels=labels)
    got = roundtrip(w, filter_)
    is_value(w, got, f, [fn(laplace(w, f)) for _, fn in parts])


def factories(w):
    """the predefined filters"""
    w.texts(("long", "small"))
    S = w.sumpf
    c = Numbers(w).real("parameter", 0.1, 10)
    w.assume(c > 0)
    name = w.choice("filter", ("Butterworth", "highpass", "Chebyshev1", "Chebyshev2", "Bessel", "delay", "derivative", "A", "B", "C", "D", "U"))
    make = {"Butterworth": lambda: S.ButterworthFilter(cutoff_frequency=c, order=3), "highpass": lambda: S.ButterworthFilter(cutoff_frequency=c, order=2, highpass=True),
            "Chebyshev1": lambda: S.Chebyshev1Filter(ripple=3.0, cutoff_frequency=c, order=3), "Chebyshev2": lambda: S.Chebyshev2Filter(ripple=3.0, cutoff_frequency=c, order=2, highpass=True),
            "Bessel": lambda: S.BesselFilter(cutoff_frequency=c, order=4), "delay": lambda: S.DelayFilter(delay=c), "derivative": S.DerivativeFilter,
            "A": S.AWeighting, "B": S.BWeighting, "C": S.CWeighting, "D": S.DWeighting, "U": S.UWeighting}
    roundtrip(w, make[name]())


def bands(w):
    """bands keep their class, too"""
    w.texts()
    n = Numbers(w, True)
    I = w.sumpf.Bands.interpolations
    c = w.choice("channels", (1, 2, 3))
    keys = ((100.0, 20.0, 1e-05), (63.0,), (), (2, 1))
    start = w.choice("first channel's frequencies", range(len(keys)))
    kind = w.choice("values", ("real", "complex", "mixed"))
    keys = [keys[(start + i) % len(keys)] for i in range(c)]

    def value(name, k):
        return w.complex_(n.real(name + "r"), n.real(name + "i")) if kind == "complex" or kind == "mixed" and k % 2 else n.real(name + "r")
    values = [{f: value(f"y{i}_{k}", k) for k, f in enumerate(ks)} for i, ks in enumerate(keys)]
    flags = [I.LINEAR, I.STAIRS_LOG, I.LOG_X]
    b = w.sumpf.Bands(bands=values, interpolations=flags[:c], extrapolations=flags[::-1][:c], labels=("a", "b", "c")[:c])
    name, fmt = w.choice("file", (("b.json", None), ("b", "TEXT_JSON"), ("b.txt", "TEXT_REPR"), ("b", "TEXT_REPR")))
    forget(w)
    got = stored(w, "Bands", b, name, fmt)
    w.require(w.and_(got == b, b == got), "equal after loading")


def case(name, fn, bounds, witnesses=8):
    return Case(name, fn, backend="B", fallback=None, options=options(nra=True), time_s=150, max_paths=8000, bounds=bounds, witnesses=witnesses)


CASES = [case(f"term {k}", terms(k), "one channel") for k in KINDS] + \
        [case("coefficients", coefficients, "one channel", 25), case("operators", operators, "one channel", 20), case("channels", channels, "0 to 3 channels"),
         case("factories", factories, "orders 2 to 4"), case("bands", bands, "1 to 3 channels")]
