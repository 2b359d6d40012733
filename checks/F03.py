"""The lowpass-to-highpass transform of filters."""
from .common import *
from .filters import *

ASSUMPTIONS = REALS + ["the coefficients are arbitrary real numbers, the frequency is an arbitrary positive number or zero", "denominators are not zero"]
OPT = {"core": {"nra": True}, "timeout_ms": 5000}
TRANSFORMED = ("PT", "ET", "ST", "S2T", "DT", "DCT", "MT", "M2T", "QT", "AT", "NT")
PLAIN = ("C", "K", "P", "E", "S", "S2", "D", "DC", "Q", "A", "N")


def values(w, filter_, frequencies, want, label):
    """sampled in each way"""
    how = w.choice("sampled", ("array", "reversed array", "numbers", "column"))
    if how == "numbers":
        for k, f in enumerate(frequencies):
            w.require(w.equal(filter_(f)[0], want[k]), f"{label} at frequency {k}")
        return
    order = list(range(len(frequencies)))
    if how == "reversed array":
        order.reverse()
    a = w.np.array([frequencies[k] for k in order])
    if how == "column":
        a = a.reshape((len(order), 1))
    got = filter_(a)[0]
    for i, k in enumerate(order):
        w.require(w.equal(w.at(got, *((i, 0) if how == "column" else (i,))), want[k]), f"{label} at frequency {k}")


def transformed(w):
    """1/s replaces s, and nothing passes at 0 Hz"""
    f, g = frequency(w), w.real("g", 0.1, 100000.0, np=True)
    kind = w.choice("term", TRANSFORMED)
    filt, fn = one(w, kind, "a", f, True)
    frequencies = [f, 0.0, g]
    values(w, filt, frequencies, [fn(laplace(w, f)), 0.0, fn(laplace(w, g))], kind)


def nested(w):
    """transforms within transforms cancel"""
    f = frequency(w)
    F = w.sumpf.Filter
    ka, kb = w.choice("first", ("C", "P", "PT", "ET", "QT", "ST")), w.choice("second", ("P", "PT", "E", "ET", "D", "MT"))
    t = w.choice("transform", (True, False))
    (x, gx), (y, gy) = term(w, ka, "a", f, True), term(w, kb, "b", f, True)
    how = w.choice("composite", ("sum", "difference", "product", "quotient", "three summands", "three factors", "negative", "absolute"))
    s = laplace(w, f)
    s = 1.0 / s if t else s
    a, b = gx(s), gy(s)
    if how == "sum":
        r, want = (lambda: F.Sum((x, y), transform=t)), a + b
    elif how == "difference":
        r, want = (lambda: F.Difference(x, y, transform=t)), a - b
    elif how == "product":
        r, want = (lambda: F.Product((x, y), transform=t)), a * b
    elif how == "quotient":
        r, want = (lambda: F.Quotient(x, y, transform=t)), a / nonzero(w, b)
    elif how == "three summands":
        r, want = (lambda: F.Sum((x, y, x), transform=t)), a + b + a
    elif how == "three factors":
        r, want = (lambda: F.Product((x, y, y), transform=t)), a * b * b
    elif how == "negative":
        r, want = (lambda: F.Negative(y, transform=t)), -b
    else:
        r, want = (lambda: F.Absolute(y, transform=t)), abs(b)
    filt = F(transfer_functions=(r(),), labels=("x",))
    is_value(w, filt, f, [want])
    # and once more around the result
    again = F(transfer_functions=(F.Sum((r(), F.Constant(0.0)), transform=True),), labels=("x",))
    s = laplace(w, f)
    s = s if t else 1.0 / s
    a, b = gx(s), gy(s)
    want = {"sum": lambda: a + b, "difference": lambda: a - b, "product": lambda: a * b, "quotient": lambda: a / nonzero(w, b),
            "three summands": lambda: a + b + a, "three factors": lambda: a * b * b, "negative": lambda: -b, "absolute": lambda: abs(b)}[how]()
    is_value(w, again, f, [want], "transformed again")


def at_zero(op):
    """what is not transformed passes at 0 Hz, also when it is combined with transformed terms"""
    def h(w):
        f = frequency(w)
        a, ga = one(w, w.choice("plain", PLAIN), "a", f, True)
        b, gb = one(w, w.choice("transformed", ("ET", "QT", "NT", "AT") + (("PT",) if op in ("mul", "div") else ())), "b", f, True)
        s = laplace(w, f)
        x0, x = ga(w.complex_(0.0, 0.0)), ga(s)
        y = gb(s)
        if op == "div" or w.choice("order", ("plain last", "plain first")) == "plain last":
            want = [binary(w, op, 0.0, x0), binary(w, op, y, x)]
            r = OP[op](b, a)
        else:
            want = [OP[op](x0, 0.0), OP[op](x, y)]
            r = OP[op](a, b)
        values(w, r, [0.0, f], want, op)
    return h


def case(name, fn, bounds):
    return Case(name, fn, backend="B", fallback=None, options=OPT, time_s=200, max_paths=15000, bounds=bounds)


CASES = [case("transformed terms", transformed, "11 kinds of terms, 4 ways of sampling"), case("nested transforms", nested, "6 x 6 kinds of terms in 8 composites")] + \
        [case(f"{op} at 0 Hz", at_zero(op), "11 x 5 kinds of terms, 4 ways of sampling") for op in BINARY]
