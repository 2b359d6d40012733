"""The arithmetic of filters is the arithmetic of their transfer functions."""
from .common import *
from .filters import *

ASSUMPTIONS = REALS + ["the coefficients are arbitrary real numbers (constants: also complex), the frequency is an arbitrary positive number",
                       "denominators are not zero", "expressions of up to three operators over the term classes; Bands are sampled at a supporting point"]
KINDS = ("C", "K", "B", "P", "PT", "E", "ET", "S", "ST", "S2", "D", "DT", "M", "MT", "M2", "Q", "QT", "A", "AT", "N", "NT")
FEW = ("C", "P", "Q")


def two(op, kinds):
    def h(w):
        f = frequency(w)
        a, ga = one(w, w.choice("first", kinds), "a", f)
        b, gb = one(w, w.choice("second", KINDS), "b", f)
        s = laplace(w, f)
        want = binary(w, op, ga(s), gb(s))
        r = OP[op](a, b)
        w.require(r.labels() == (LABEL[op],), "the label names the operation")
        is_value(w, r, f, [want])
    return h


def single(w):
    f = frequency(w)
    op = w.choice("operator", UNARY)
    a, ga = one(w, w.choice("term", KINDS), "a", f, None)
    want = unary(w, op, ga(laplace(w, f)))
    r = apply(op, a)
    w.require(r.labels() == ("a",), "the label is kept")
    is_value(w, r, f, [want])


def three(op, side):
    def h(w):
        f = frequency(w)
        kinds = w.limit(FEW, FEW + ("PT", "B", "K", "E", "M", "D"))
        (a, ga), (b, gb), (c, gc) = (one(w, w.choice(f"operand {n}", kinds), n, f, True) for n in "abc")
        op2 = w.choice("inner operator", BINARY)
        s = laplace(w, f)
        inner = binary(w, op2, ga(s), gb(s))
        if side == "left":
            want = binary(w, op, inner, gc(s))
            r = OP[op](OP[op2](a, b), c)
        else:
            want = binary(w, op, gc(s), inner)
            r = OP[op](c, OP[op2](a, b))
        is_value(w, r, f, [want])
    return h


def mixed(op):
    """operators on the results of unary operators and the other way round"""
    def h(w):
        f = frequency(w)
        kinds = ("C", "B", "P", "E", "ET", "S", "D", "M", "Q", "QT")
        un = w.choice("unary operator", UNARY)
        a, ga = one(w, w.choice("first", kinds), "a", f, True)
        b, gb = one(w, w.choice("second", w.limit(("C", "P", "ET", "S2"), kinds)), "b", f, True)
        where = w.choice("applied to", ("first", "second", "result"))
        s = laplace(w, f)
        x, y = ga(s), gb(s)
        if where == "first":
            want = binary(w, op, unary(w, un, x), y)
            r = OP[op](apply(un, a), b)
        elif where == "second":
            want = binary(w, op, x, unary(w, un, y))
            r = OP[op](a, apply(un, b))
        else:
            want = unary(w, un, binary(w, op, x, y))
            r = apply(un, OP[op](a, b))
        is_value(w, r, f, [want])
    return h


def twice(w):
    """unary operators on the results of unary operators"""
    f = frequency(w)
    a, ga = one(w, w.choice("term", KINDS), "a", f, None)
    u, v = w.choice("inner", UNARY), w.choice("outer", UNARY)
    want = unary(w, v, unary(w, u, ga(laplace(w, f))))
    is_value(w, apply(v, apply(u, a)), f, [want])


def numbers(op):
    """a filter and a number"""
    def h(w):
        f = frequency(w)
        a, ga = one(w, w.choice("term", KINDS), "a", f)
        n = number(w, "n", w.choice("number", ("real", "complex")))
        s = laplace(w, f)
        if w.choice("side", ("right", "left")) == "right":
            want = binary(w, op, ga(s), n)
            r = OP[op](a, n)
        else:
            want = binary(w, op, n, ga(s))
            r = OP[op](n, a)
        w.require(r.labels() == ("a",), "the label is kept")
        is_value(w, r, f, [want])
    return h


OPT = {"core": {"nra": True}, "timeout_ms": 5000}
CASES = [Case(f"{op} two filters {n}", two(op, kinds), backend="B", fallback=None, options=OPT, time_s=200, max_paths=15000,
              bounds="21 x 21 kinds of terms") for op in BINARY for n, kinds in ((1, KINDS[:10]), (2, KINDS[10:]))] + \
        [Case("one filter", single, backend="B", fallback=None, options=OPT, bounds="21 kinds of terms"),
         Case("unary operators in a row", twice, backend="B", fallback=None, options=OPT, bounds="21 kinds of terms")] + \
        [Case(f"{op} with an expression on the {side}", three(op, side), backend="B", fallback=None, options=OPT, time_s=200,
              bounds="4 inner operators, 5^3 (8^3) kinds of terms") for op in BINARY for side in ("left", "right")] + \
        [Case(f"{op} and a unary operator", mixed(op), backend="B", fallback=None, options=OPT, time_s=200, bounds="10 x 4 (10 x 10) kinds of terms") for op in BINARY] + \
        [Case(f"{op} with a number", numbers(op), backend="B", fallback=None, options=OPT, time_s=120, bounds="21 kinds of terms, real and complex numbers")
         for op in BINARY]
