"""Sampling a filter and applying it to signals, spectrums and spectrograms."""
from .common import *
from .filters import *
from .reference import *

ASSUMPTIONS = REALS + ["the coefficients are arbitrary real numbers, the frequencies and the resolution arbitrary positive numbers", "denominators are not zero",
                       "1 to 3 channels, 1 to 4 frequencies, signals of 1 to 4 samples; numpy's Fourier transforms are the textbook sums (10 digits)"]
OPT = {"core": {"nra": True}, "timeout_ms": 5000}
KINDS = ("C", "P", "E", "S", "Q", "QT", "D", "PT", "S2")


def channels(w, name, kinds, n, f=None):
    parts = [term(w, k, f"{name}{i}", f, True) for i, k in enumerate(kinds)]
    return w.sumpf.Filter(transfer_functions=tuple(t for t, _ in parts), labels=labels_of(name, len(parts))), [g for _, g in parts]


def pick(w, name, count, kinds=KINDS):
    """kinds of the channels: all of them for one channel, neighbours for more"""
    i = w.choice(name, range(len(kinds)))
    return [kinds[(i + 3 * k) % len(kinds)] for k in range(count)]


def value(w, kind, fn, f):
    """the transfer function at a frequency, with the convention for transformed terms at 0 Hz"""
    if not hasattr(f, "p") and f == 0.0 and kind.endswith("T"):
        return 0.0
    return fn(laplace(w, f))


def call(w):
    """calling the filter with numbers and arrays of frequencies"""
    c = w.choice("channels", (1, 2, 3))
    shape = w.choice("shape", ((), (1,), (2,), (3,), (2, 2), (1, 3)))
    kinds = pick(w, "kinds", c, KINDS + ("BZ",))
    filt, fns = channels(w, "c", kinds, c)
    n = 1
    for s in shape:
        n *= s
    fs = [w.real(f"f{i}", 0.1, 100000.0, np=shape != ()) for i in range(n)]
    want = [[value(w, k, g, f) for f in fs] for k, g in zip(kinds, fns)]
    if shape == ():
        got = filt(fs[0])
        w.require(len(got) == c, "one result per channel")
        for i in range(c):
            w.require(numpy_scalar(got[i]), "a number for a number")
            w.require(w.equal(got[i], want[i][0]), f"channel {i}")
        return
    frequencies = w.np.array(fs).reshape(shape)
    got = filt(frequencies.tolist() if w.choice("given as", ("array", "list")) == "list" else frequencies)
    w.require(len(got) == c, "one result per channel")
    for i in range(c):
        w.require(tuple(got[i].shape) == shape, "the shape of the frequencies")
        w.require(isinstance(got[i], w.np.ndarray), "an array")
        for k, idx in enumerate(numpy.ndindex(*shape)):
            w.require(w.equal(w.at(got[i], *idx), want[i][k]), f"channel {i} at frequency {k}")
    for k, idx in enumerate(numpy.ndindex(*shape)):
        w.require(w.same(w.at(frequencies, *idx), fs[k]), "the frequencies are left alone")


def numpy_scalar(x):
    return numpy.shape(x) == () if not hasattr(x, "re") else True


def sampled(w, kinds, fns, resolution, n):
    return [[value(w, k, g, 0.0 if i == 0 else i * resolution) for i in range(n)] for k, g in zip(kinds, fns)]


def spectrum_(w):
    c = w.choice("channels", (1, 2, 3))
    n = w.choice("length", (1, 2, 3, 4))
    kinds = pick(w, "kinds", c)
    filt, fns = channels(w, "c", kinds, c)
    r = w.real("resolution", 0.1, 1000.0)
    for k, g in zip(kinds, fns):
        if k == "Q":
            nonzero(w, g(0.0))
    want = sampled(w, kinds, fns, r, n)
    got = filt.spectrum(resolution=r, length=n)
    w.require(isinstance(got, w.sumpf.Spectrum), "a spectrum")
    w.require(got.resolution() == r, "resolution")
    w.require(got.labels() == labels_of("c", c), "labels")
    same_shape(w, got.channels(), (c, n), "spectrum")
    for i in range(c):
        for k in range(n):
            w.require(w.equal(w.at(got.channels(), i, k), want[i][k]), f"channel {i} at bin {k}")


def combine(w):
    """channel counts and labels of the arithmetic"""
    a = w.choice("first channels", (1, 2, 3))
    b = w.choice("second channels", (1, 2, 3))
    op = w.choice("operator", BINARY)
    ka, kb = pick(w, "first", a, ("C", "P", "ET")), pick(w, "second", b, ("P", "C", "E"))
    fa, ga = channels(w, "a", ka, a)
    fb, gb = channels(w, "b", kb, b)
    if 1 not in (a, b) and a != b:
        try:
            r = OP[op](fa, fb)
        except ValueError:
            return w.require(True, "refused")
        return w.fail("different numbers of channels are refused")
    f = frequency(w)
    s = laplace(w, f)
    n = max(a, b)
    want = [binary(w, op, ga[i if a > 1 else 0](s), gb[i if b > 1 else 0](s)) for i in range(n)]
    r = OP[op](fa, fb)
    w.require(r.labels() == (LABEL[op],) * n, "labels")
    w.require(len(r) == n, "number of channels")
    is_value(w, r, f, want)
    w.require(fa.labels() == labels_of("a", a) and fb.labels() == labels_of("b", b), "the operands are left alone")
    is_value(w, fa, f, [g(s) for g in ga], "first operand")
    is_value(w, fb, f, [g(s) for g in gb], "second operand")


def several(w):
    """unary operators, numbers and selection of channels"""
    c = w.choice("channels", (2, 3))
    kinds = pick(w, "kinds", c, ("P", "C", "ET"))
    filt, fns = channels(w, "c", kinds, c)
    f = frequency(w)
    s = laplace(w, f)
    what = w.choice("operation", UNARY + BINARY + ("index", "slice"))
    labels = labels_of("c", c)
    values = [g(s) for g in fns]
    if what in UNARY:
        want = [unary(w, what, v) for v in values]
        r = apply(what, filt)
    elif what in BINARY:
        n = number(w, "n", "real")
        if w.choice("side", ("left", "right")) == "right":
            want = [binary(w, what, v, n) for v in values]
            r = OP[what](filt, n)
        else:
            want = [binary(w, what, n, v) for v in values]
            r = OP[what](n, filt)
    elif what == "slice":
        start, stop = w.choice("start", (None, 0, 1, 2, -1, -2)), w.choice("stop", (None, 1, 2, 3, -1))
        if not labels[start:stop]:
            return
        r, want, labels = filt[start:stop], values[start:stop], labels[start:stop]
    else:
        i = w.choice("index", (0, 1, -1, -2))
        r, want, labels = filt[i], [values[i]], (labels[i],)
    w.require(r.labels() == labels, "labels")
    w.require(len(r) == len(want), "number of channels")
    is_value(w, r, f, want)


def on_spectrum(w):
    cs = w.concrete(w.int("channels", 1, 2))
    cf = w.choice("filter channels", (1, 2))
    if cs != cf and 1 not in (cs, cf):
        return
    n = w.choice("length", (1, 2, 3))
    kinds = pick(w, "kinds", cf, ("P", "QT", "C", "E"))
    filt, fns = channels(w, "h", kinds, cf)
    r = w.real("resolution", 0.1, 1000.0)
    data = w.array("x", (cs, n), "c16")
    spectrum = w.sumpf.Spectrum(channels=data, resolution=r, labels=labels_of("x", cs))
    ref = Ref(w, data, ())
    h = sampled(w, kinds, fns, r, n)
    got = filt * spectrum if w.choice("order", ("filter first", "filter last")) == "filter first" else spectrum * filt
    w.require(isinstance(got, w.sumpf.Spectrum), "a spectrum")
    c = max(cs, cf)
    same_shape(w, got.channels(), (c, n), "result")
    w.require(got.resolution() == r, "resolution")
    w.require(got.labels() == ("Product",) * c, "labels")
    for i in range(c):
        for k in range(n):
            w.require(w.equal(w.at(got.channels(), i, k), ref.at(i if cs > 1 else 0, k) * h[i if cf > 1 else 0][k]), f"channel {i} at bin {k}")
    ref.unchanged("spectrum")


def on_signal(w):
    c = w.concrete(w.int("channels", 1, 2))
    cf = w.choice("filter channels", (1, 2))
    n = w.choice("length", (2, 4, 1, 3))
    kind = w.choice("kind", ("C", "P", "QT"))
    filt, fns = channels(w, "h", (kind,) * cf, cf)
    sr = 40000.0
    o = w.choice("offset", (0, 2, -3))
    data = w.array("x", (c, n), lo=-1, hi=1)
    signal_ = w.sumpf.Signal(channels=data, sampling_rate=sr, offset=o, labels=labels_of("x", c))
    ref = Ref(w, data, ())
    if w.choice("order", ("filter first", "filter last")) == "filter first":
        got = filt * signal_
    else:
        got = signal_ * filt
    spec = signal_.fourier_transform()
    want = (filt.spectrum(resolution=spec.resolution(), length=spec.length()) * spec).inverse_fourier_transform()
    w.require(isinstance(got, w.sumpf.Signal), "a signal")
    same_shape(w, got.channels(), w.shape(want.channels()), "result")
    w.require(got.offset() == want.offset(), "offset")
    w.require(w.close(got.sampling_rate(), want.sampling_rate()), "sampling rate")
    w.forall(w.shape(want.channels()), lambda i, k: w.equal(w.at(got.channels(), i, k), w.at(want.channels(), i, k)), "samples")
    ref.unchanged("signal")


def on_spectrogram(w):
    c = w.concrete(w.int("channels", 1, 2))
    cf = w.choice("filter channels", (1, 2))
    if c != cf and 1 not in (c, cf):
        return
    n, m = w.choice("length", (1, 2)), w.choice("frequencies", (1, 2, 3))
    kinds = pick(w, "kinds", cf, ("P", "QT", "C", "E"))
    filt, fns = channels(w, "h", kinds, cf)
    r = w.real("resolution", 0.1, 1000.0)
    data = w.array("x", (c, m, n), "c16")
    o = w.choice("offset", (0, 3, -2))
    x = w.sumpf.Spectrogram(channels=data, resolution=r, sampling_rate=100.0, offset=o, labels=labels_of("x", c))
    ref = Ref(w, data, ())
    h = sampled(w, kinds, fns, r, m)
    got = filt * x if w.choice("order", ("filter first", "filter last")) == "filter first" else x * filt
    w.require(isinstance(got, w.sumpf.Spectrogram), "a spectrogram")
    d = max(c, cf)
    same_shape(w, got.channels(), (d, m, n), "result")
    w.require(got.resolution() == r and got.sampling_rate() == 100.0 and got.offset() == o, "resolution, sampling rate and offset")
    for i, k, t in numpy.ndindex(d, m, n):
        w.require(w.equal(w.at(got.channels(), i, k, t), ref.at(i if c > 1 else 0, k, t) * h[i if cf > 1 else 0][k]), f"channel {i} at {k}, {t}")
    ref.unchanged("spectrogram")


def case(name, fn, bounds):
    return Case(name, fn, backend="B", fallback=None, options=OPT, time_s=150, bounds=bounds)


CASES = [case("call", call, "1..3 channels, up to 4 frequencies in up to 2 dimensions"),
         case("spectrum", spectrum_, "1..3 channels, 1..4 bins"),
         case("channels of the arithmetic", combine, "1..3 channels per operand"),
         case("channels of one filter", several, "2..3 channels"),
         case("product with a spectrum", on_spectrum, "1..2 channels, 1..3 bins"),
         case("product with a signal", on_signal, "1..2 channels, 1..4 samples"),
         case("product with a spectrogram", on_spectrogram, "1..2 channels, 1..3 frequencies, 1..2 frames")]
