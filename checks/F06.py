"""Bands filters interpolate and extrapolate their supporting points."""
from .common import *
from .filters import *

ASSUMPTIONS = REALS + ["1 to 3 supporting points (thorough: 4) at arbitrary positive frequencies with arbitrary values (positive ones, where their logarithm is needed)",
                       "the logarithm is an increasing function and the inverse of the power; the sampled frequencies are positive"]
OPT = {"core": {"nra": True}, "timeout_ms": 5000}
NAMES = ("ZERO", "ONE", "LINEAR", "LOGARITHMIC", "LOG_X", "LOG_Y", "STAIRS_LIN", "STAIRS_LOG")
LOG_OF_Y = ("LOGARITHMIC", "LOG_Y")
LOG_OF_X = ("LOGARITHMIC", "LOG_X", "STAIRS_LOG")


def flag(w, name):
    return getattr(w.sumpf.Bands.interpolations, name)


def function(w, name, x):
    if w.symbolic:
        from engine import core
        return core.unary(name, x)
    return getattr(numpy, name)(x)


def points(w, name, n, positive):
    """increasing frequencies and values"""
    xs, ys = [w.real(name + "x0", 0.1, 20000.0, np=True)], []
    for i in range(1, n):
        xs.append(xs[-1] + w.real(f"{name}d{i}", 0.01, 20000.0, np=True))
    for i in range(n):
        ys.append(w.real(f"{name}y{i}", 0.01 if positive else -100, 100, np=True))
    return xs, ys


def bands(w, xs, ys, interpolation, extrapolation):
    t = w.sumpf.Filter.Bands(xs=w.np.array(xs), ys=w.np.array(ys), interpolation=flag(w, interpolation), extrapolation=flag(w, extrapolation))
    return w.sumpf.Filter(transfer_functions=(t,), labels=("b",))


def inside(w, xs, name="f", where=("point", "gap")):
    """(frequency, index of the supporting point or None, index of the point on the left)"""
    i = w.choice(name + " position", range(len(xs)))
    if i == len(xs) - 1 or w.choice(name + " at", where) == "point":
        return xs[i], i, i
    f = w.real(name, 0.1, 100000.0, np=True)
    w.assume(w.and_(f > xs[i], f < xs[i + 1]))
    return f, None, i


def outside(w, xs, name="f"):
    f = w.real(name, 0.01, 1000000.0, np=True)
    side = w.choice(name + " side", ("below", "above"))
    w.assume(f < xs[0] if side == "below" else f > xs[-1])
    return f, side


def check(w, kind, got, f, xs, ys, i, j):
    """the value at f on the line through the points i and j, which are the two nearest ones"""
    if kind in ("ZERO", "ONE"):
        return w.require(w.equal(got, 0.0 if kind == "ZERO" else 1.0), "value")
    if kind in ("STAIRS_LIN", "STAIRS_LOG"):
        if kind == "STAIRS_LOG" and not (f is xs[0] or f is xs[-1]):
            f, a, b = function(w, "log2", f), function(w, "log2", xs[i]), function(w, "log2", xs[j])
        else:
            a, b = xs[i], xs[j]
        da, db = w.abs(f - a), w.abs(f - b)
        return w.require(w.or_(w.and_(w.same(got, ys[i]), da <= db), w.and_(w.same(got, ys[j]), db <= da)), "value of the nearest point")
    x, a, b = [function(w, "log2", v) if kind in LOG_OF_X else v for v in (f, xs[i], xs[j])]
    y, c, d = [function(w, "log2", v) if kind in LOG_OF_Y else v for v in (got, ys[i], ys[j])]
    want = c if i == j else c + (x - a) * ((d - c) / (b - a))
    w.require(w.equal(y, want), "value on the line")


def interpolate(kind):
    def h(w):
        n = w.choice("points", w.limit((1, 2, 3), (1, 2, 3, 4)))
        other = w.choice("extrapolation", ("ZERO", "LINEAR", "STAIRS_LIN") if kind not in LOG_OF_Y else ("ONE", "LOG_Y"))
        xs, ys = points(w, "", n, kind in LOG_OF_Y)
        if kind not in LOG_OF_Y and w.choice("complex", (False, True)):
            ys = [w.complex_(y, w.real(f"z{i}", -100, 100)) for i, y in enumerate(ys)]
        f, at, i = inside(w, xs)
        b = bands(w, xs, ys, kind, other)
        how = w.choice("sampled", ("number", "array", "reversed", "column"))
        e = w.choice("also sampled at", range(n))
        if how == "number":
            got = b(f)[0]
        elif how == "column":
            r = b(w.np.array([[f], [xs[e]]]))[0]
            got, second = w.at(r, 0, 0), w.at(r, 1, 0)
        else:
            fs = [f, xs[e]]
            r = b(w.np.array(fs if how == "array" else fs[::-1]))[0]
            got, second = w.at(r, 0 if how == "array" else 1), w.at(r, 1 if how == "array" else 0)
        if how != "number":
            w.require(w.equal(second, ys[e]), "value at another supporting point")
        if at is not None:
            w.require(w.equal(got, ys[at]), "value at a supporting point")
        else:
            check(w, kind, got, f, xs, ys, i, i + 1)
    return h


def extrapolate(kind):
    def h(w):
        n = w.choice("points", w.limit((1, 2, 3), (1, 2, 3, 4)))
        other = w.choice("interpolation", ("LINEAR", "STAIRS_LIN") if kind not in LOG_OF_Y else ("ONE", "LOG_Y"))
        xs, ys = points(w, "", n, kind in LOG_OF_Y)
        if kind not in LOG_OF_Y and w.choice("complex", (False, True)):
            ys = [w.complex_(y, w.real(f"z{i}", -100, 100)) for i, y in enumerate(ys)]
        f, side = outside(w, xs)
        b = bands(w, xs, ys, other, kind)
        how = w.choice("sampled", ("number", "with a point", "with both sides"))
        if how == "number":
            got = b(f)[0]
        elif how == "with a point":
            r = b(w.np.array([xs[-1], f]))[0]
            got = w.at(r, 1)
            w.require(w.equal(w.at(r, 0), ys[-1]), "value at a supporting point")
        else:
            g = w.real("g", 0.01, 1000000.0, np=True)
            w.assume(g > xs[-1] if side == "below" else g < xs[0])
            got = w.at(b(w.np.array([f, g]))[0], 0)
        i, j = (0, min(1, n - 1)) if side == "below" else (n - 1, max(n - 2, 0))
        if kind.startswith("STAIRS"):
            w.require(w.equal(got, ys[i]), "value of the nearest point")
        else:
            check(w, kind, got, f, xs, ys, i, j)
    return h


def spectrum(w):
    """the spectrum samples the bands like a call does"""
    n = w.choice("points", (0, 1, 2))
    kind, other = w.choice("interpolation", ("LINEAR", "STAIRS_LIN", "ZERO", "ONE")), w.choice("extrapolation", ("STAIRS_LIN", "ZERO", "LINEAR"))
    xs, ys = points(w, "", n, False) if n else ([], [])
    b = bands(w, xs, ys, kind, other)
    r = w.real("resolution", 0.1, 20000.0)
    got = b.spectrum(resolution=r, length=3).channels()
    want = b(w.np.array([0.0 * r, r, 2 * r]))[0]
    for i in range(3):
        w.require(w.equal(w.at(got, 0, i), w.at(want, i) if n else 0.0), f"value of bin {i}")


def arithmetic(op):
    """Bands are combined at their supporting points, if these are the same, and at every frequency otherwise"""
    def h(w):
        n = w.choice("points", (1, 2))
        kind = w.choice("interpolation", ("LINEAR", "STAIRS_LIN", "ZERO", "LOG_X"))
        ext = w.choice("extrapolation", ("STAIRS_LIN", "LINEAR"))
        differ = w.choice("differing", ("nothing", "frequencies", "size", "interpolation", "extrapolation"))
        xs, ys = points(w, "a", n, op == "div")
        xb, yb = points(w, "b", n + 1 if differ == "size" else n, op == "div")
        if differ not in ("frequencies", "size"):
            xb = xs
        elif differ == "size":
            xb = (xs + xb[-1:]) if w.choice("longer at", ("end", "start")) == "end" else None
            if xb is None:
                e = w.real("first", 0.01, 100000.0, np=True)
                w.assume(e < xs[0])
                xb = [e] + xs
            else:
                w.assume(xb[-1] > xs[-1])
        else:
            w.assume(w.or_(*(x != y for x, y in zip(xs, xb))))
        a = bands(w, xs, ys, kind, ext)
        b = bands(w, xb, yb, "ONE" if differ == "interpolation" else kind, "ONE" if differ == "extrapolation" else ext)
        if differ == "nothing":
            f, _, i = inside(w, xs, where=("point",))
            x, y = ys[i], yb[i]
        else:
            where = w.choice("position", ("inside", "outside"))
            f = inside(w, xs)[0] if where == "inside" else outside(w, xs)[0]
            x, y = a(f)[0], b(f)[0]
        want = binary(w, op, x, y)
        got = OP[op](a, b)(f)[0]
        w.require(w.equal(got, want), "value")
    return h


def same(w):
    """sums of bands on the same points are sums at every frequency where that can be told from the interpolation"""
    n = w.choice("points", (2, 3))
    kind = w.choice("interpolation", ("LINEAR", "STAIRS_LIN", "ZERO", "LOG_X", "STAIRS_LOG"))
    xs, ys = points(w, "a", n, False)
    _, yb = points(w, "b", n, False)
    a, b = bands(w, xs, ys, kind, kind), bands(w, xs, yb, kind, kind)
    op = w.choice("operator", ("add", "sub"))
    f = inside(w, xs)[0] if w.choice("position", ("inside", "outside")) == "inside" else outside(w, xs)[0]
    want = OP[op](a(f)[0], b(f)[0])
    w.require(w.equal(OP[op](a, b)(f)[0], want), "value")


def unary_(w):
    """negation applies to every frequency, inversion and absolute to the supporting points"""
    n = w.choice("points", (1, 2))
    op = w.choice("operator", UNARY)
    kind = w.choice("interpolation", NAMES)
    ext = w.choice("extrapolation", NAMES)
    positive = op == "inv" or kind in LOG_OF_Y or ext in LOG_OF_Y
    xs, ys = points(w, "", n, positive)
    a = bands(w, xs, ys, kind, ext)
    if op == "neg":
        f = inside(w, xs)[0] if w.choice("position", ("inside", "outside")) == "inside" else outside(w, xs)[0]
        want = -a(f)[0]
    else:
        f, _, i = inside(w, xs, where=("point",))
        want = unary(w, op, ys[i])
    w.require(w.equal(apply(op, a)(f)[0], want), "value")


def number_(op):
    """numbers apply to every frequency"""
    def h(w):
        n = w.choice("points", (1, 2))
        kind, ext = w.choice("interpolation", ("LINEAR", "ZERO", "ONE", "LOG_Y")), w.choice("extrapolation", ("STAIRS_LIN", "ONE"))
        xs, ys = points(w, "", n, kind == "LOG_Y" or op == "div")
        a = bands(w, xs, ys, kind, ext)
        c = w.real("number", -10, 10)
        f = inside(w, xs)[0] if w.choice("position", ("inside", "outside")) == "inside" else outside(w, xs)[0]
        x = a(f)[0]
        if w.choice("side", ("right", "left")) == "right":
            want, r = binary(w, op, x, c), lambda: OP[op](a, c)
        else:
            want, r = binary(w, op, c, x), lambda: OP[op](c, a)
        w.require(w.equal(r()(f)[0], want), "value")
    return h


KEYS = ((100.0, 20.0, 1000.0), (63.0,), (), (2, 1), (50.0, 10.0))


def mapping(w):
    """the class for bands sorts the frequencies and completes flags and labels"""
    c = w.choice("channels", (1, 2, 3))
    start = w.choice("first channel's frequencies", range(len(KEYS)))
    keys = [KEYS[(start + i) % len(KEYS)] for i in range(c)]
    values = [{f: w.real(f"y{i}_{k}", -100, 100) for k, f in enumerate(ks)} for i, ks in enumerate(keys)]
    I = w.sumpf.Bands.interpolations
    flags = [I.LINEAR, I.ZERO, I.LOG_X]
    given = w.choice("given flags", ("one", "one in a list", "two", "all", "default"))
    labels = w.choice("labels", (("x",), ("x", "y"), ("x", "y", "z"), ("x", "y", "z", "u"), ()))
    kwargs = {}
    want_i, want_e = [I.LOGARITHMIC] * c, [I.STAIRS_LIN] * c
    if given == "one":
        kwargs = dict(interpolations=I.ONE, extrapolations=I.ZERO)
        want_i, want_e = [I.ONE] * c, [I.ZERO] * c
    elif given != "default":
        k = {"one in a list": 1, "two": 2, "all": 3}[given]
        kwargs = dict(interpolations=flags[:k], extrapolations=tuple(flags[::-1][:k]))
        want_i = (flags[:k] + [flags[k - 1]] * 3)[:c]
        want_e = (flags[::-1][:k] + [flags[::-1][k - 1]] * 3)[:c]
    b = w.sumpf.Bands(bands=values[0] if c == 1 and w.choice("as", ("dictionary", "list")) == "dictionary" else values, labels=labels, **kwargs)
    tfs = b.transfer_functions()
    w.require(len(tfs) == c and len(b) == c, "one transfer function per channel")
    for i in range(c):
        order = sorted(keys[i])
        w.require([float(x) for x in tfs[i].xs] == [float(x) for x in order], f"frequencies of channel {i}")
        for k, f in enumerate(order):
            w.require(w.same(w.at(tfs[i].ys, k), values[i][f]), f"value {k} of channel {i}")
        w.require(tfs[i].interpolation is want_i[i] and tfs[i].extrapolation is want_e[i], f"interpolation and extrapolation of channel {i}")
    want = (labels + (labels[0] if labels else "Bands",) * 3)[:c]
    w.require(b.labels() == want, "labels")


def decibels(w):
    """conversions to and from dB"""
    c = w.choice("channels", (1, 2))
    keys = [(100.0, 20.0), (63.0,)][:c]
    I = w.sumpf.Bands.interpolations
    to = w.choice("direction", ("to dB", "from dB", "there and back", "back and there"))
    values = [{f: w.real(f"y{i}_{k}", 0.01, 100) for k, f in enumerate(ks)} for i, ks in enumerate(keys)]
    b = w.sumpf.Bands(bands=values, interpolations=(I.LOG_X, I.LINEAR), extrapolations=(I.STAIRS_LOG, I.ONE), labels=labels_of("b", c))
    kwargs = {}
    ref, fac = 1.0, 20.0
    if w.choice("given", (True, False)):
        ref, fac = w.real("reference", 0.001, 100), w.choice("factor", (20.0, 10.0, 8.0))
        kwargs = dict(reference=ref, factor=fac)
    if to == "to dB":
        r, fn = b.to_db(**kwargs), lambda y: fac * function(w, "log10", y / ref)
    elif to == "from dB":
        r, fn = b.from_db(**kwargs), lambda y: ref * 10.0 ** (y / fac)
    else:
        r = b.to_db(**kwargs).from_db(**kwargs) if to == "there and back" else b.from_db(**kwargs).to_db(**kwargs)
        fn = lambda y: y
    w.require(isinstance(r, w.sumpf.Bands), "a bands filter")
    w.require(r.labels() == b.labels(), "labels")
    for i in range(c):
        t, u = r.transfer_functions()[i], b.transfer_functions()[i]
        w.require([float(x) for x in t.xs] == sorted(keys[i]), "frequencies")
        w.require(t.interpolation is u.interpolation and t.extrapolation is u.extrapolation, "interpolations")
        for k, f in enumerate(sorted(keys[i])):
            w.require(w.equal(w.at(t.ys, k), fn(values[i][f])), f"value at {f}")
            w.require(w.same(w.at(u.ys, k), values[i][f]), "the original is left alone")


def case(name, fn, bounds):
    return Case(name, fn, backend="B", fallback=None, options=OPT, time_s=150, max_paths=8000, bounds=bounds)


CASES = [case(f"interpolation {k}", interpolate(k), "1..3 points") for k in NAMES] + \
        [case(f"extrapolation {k}", extrapolate(k), "1..3 points") for k in NAMES] + \
        [case("spectrum", spectrum, "0..2 points, 3 bins")] + \
        [case(f"{op} two bands", arithmetic(op), "1..3 points") for op in BINARY] + \
        [case("bands on the same points", same, "2..3 points"), case("unary operators", unary_, "1..2 points")] + \
        [case(f"{op} with a number", number_(op), "1..2 points") for op in BINARY] + \
        [case("dictionaries", mapping, "1..3 channels"), case("decibels", decibels, "1..2 channels")]
