"""Signals, spectrums and spectrograms are the same after they have been saved and loaded."""
from .common import *
from .storage import *

ASSUMPTIONS = REALS + ["the text of a number identifies it; numbers are written with or without an exponent and with up to 17 digits",
                       "1 to 3 channels with up to 4 samples and up to 3 frequencies"]
CLASSES = ("Signal", "Spectrum", "Spectrogram")
# file names and formats, which keep everything
EXACT = (("d.json", None), ("d.npz", None), ("d.js", None), ("d", "TEXT_JSON"), ("d.dat", "NUMPY_NPZ"), ("d", "NUMPY_NPZ"))
FORMATS = ("plain", "long", "small", "large")


def samples(w, shape, complex_, signs=("+", "-", "+-")):
    signs = w.choice("signs", signs)
    r = numpy.empty(shape, object)
    for k, idx in enumerate(numpy.ndindex(*shape)):
        name = "x" + "_".join(str(i) for i in idx)
        negative = signs == "-" or signs == "+-" and (sum(idx) % 2 == 1)
        if complex_:
            r[idx] = w.complex_(value(w, name + "r", negative), value(w, name + "i", negative != (signs == "+-")))
        else:
            r[idx] = value(w, name, negative)
    if not r.size:
        return w.np.zeros(shape, dtype=numpy.complex128 if complex_ else numpy.float64)
    return w.np.array(r.tolist())


def data_set(w, cls, shape, labels=None):
    """a data set, its channels and its other attributes"""
    labels = tuple(f"l{i}" for i in range(shape[0])) if labels is None else labels
    x = samples(w, shape, cls != "Signal")
    attrs = {}
    if cls != "Spectrum":
        sr = w.number("sampling_rate")
        w.assume(sr > 0)
        attrs["sampling_rate"] = sr
        attrs["offset"] = w.int("offset", -10 ** 6, 10 ** 6)
    if cls != "Signal":
        r = w.number("resolution")
        w.assume(r > 0)
        attrs["resolution"] = r
    return getattr(w.sumpf, cls)(channels=x, labels=labels, **attrs), x, labels, attrs


def same_data(w, got, x, labels):
    same_shape(w, got.channels(), x.shape, "samples")
    w.require(got.labels() == labels, "labels")
    for idx in numpy.ndindex(*x.shape):
        w.require(w.identical(w.at(got.channels(), *idx), w.at(x, *idx)), f"sample {idx}")


def same_attributes(w, got, attrs):
    for k, v in attrs.items():
        w.require(w.identical(getattr(got, k)(), v), k)


def shapes(w, cls):
    c = w.choice("channels", (1, 2, 3))
    n = w.choice("length", w.limit((1, 2, 3), (1, 2, 3, 4)))
    return (c, w.choice("frequencies", (1, 2, 3)), n) if cls == "Spectrogram" else (c, n)


def exact(cls):
    def h(w):
        shape = shapes(w, cls)
        w.texts(w.limit(("long", "small"), FORMATS))
        d, x, labels, attrs = data_set(w, cls, shape)
        name, fmt = w.choice("file", w.limit(EXACT[:4], EXACT))
        forget(w)
        got = stored(w, cls, d, name, fmt)
        same_data(w, got, x, labels)
        same_attributes(w, got, attrs)
        w.require(w.and_(got == d, d == got), "equal after loading")
        same_attributes(w, d, attrs)
    return h


def chain(cls):
    """a loaded data set can be saved again in each of the formats"""
    def h(w):
        shape = shapes(w, cls)
        w.assume(shape[-1] > 1)
        w.texts(w.limit(("small",), FORMATS))
        d, x, labels, attrs = data_set(w, cls, shape)
        if "offset" in attrs:
            w.assume(w.and_(attrs["offset"] >= -1, attrs["offset"] <= 1))
        files = ("d.json", "d.npz") + (("d.csv",) if cls != "Spectrogram" else ())
        first, second = w.choice("first", files), w.choice("second", files)
        forget(w)
        got = stored(w, cls, stored(w, cls, d, first), "2" + second)
        same_data(w, got, x, labels)
        for k, v in attrs.items():
            w.require(w.close(getattr(got, k)(), v, 1e-6) if k != "offset" else getattr(got, k)() == v, k)
    return h


def labels(cls):
    """text in labels, with and without samples"""
    def h(w):
        c = w.choice("channels", (1, 2))
        i = w.choice("label", range(len(LABELS)))
        n = w.choice("length", (2, 0))
        shape = (c, n)
        if cls == "Spectrogram":
            shape = (c,) + w.choice("shape", ((2, 1), (2, 0), (0, 0))) if n == 0 else (c, 2, 1)
        w.texts(("plain",))
        names = tuple(LABELS[(i + k) % len(LABELS)] for k in range(c))
        d, x, names, attrs = data_set(w, cls, shape, names)
        files = EXACT[:2] + ((("d.csv", None), ("d", "TEXT_CSV")) if cls != "Spectrogram" and n > 1 else ())
        name, fmt = w.choice("file", files)
        if "csv" in name or fmt == "TEXT_CSV":
            w.assume(w.and_(*[w.and_(v <= 3, v >= -3) for k, v in attrs.items() if k == "offset"]))
        forget(w)
        got = stored(w, cls, d, name, fmt)
        same_data(w, got, x, names)
        same_attributes(w, got, attrs)
    return h


def axis(w, cls, x, n):
    """sets the axis that is stored as a row or a column"""
    if cls == "Signal":
        sr = w.number("sampling_rate")
        w.assume(sr > 0)
        o = w.choice("offset", w.limit((0, 1, -2, 5), (0, 1, -1, -2, -3, -4, 5, 48000, -10 ** 6)))
        return dict(sampling_rate=sr, offset=o)
    r = w.number("resolution")
    w.assume(r > 0)
    return dict(resolution=r)


def tables(cls):
    """csv and npy files store the axis instead of its parameters"""
    def h(w):
        c, n = w.choice("channels", (1, 2, 3)), w.choice("length", w.limit((2, 3), (2, 3, 4)))
        w.texts(w.limit(("long", "small"), FORMATS))
        x = samples(w, (c, n), cls != "Signal")
        attrs = axis(w, cls, x, n)
        names = tuple(f"l{i}" for i in range(c))
        d = getattr(w.sumpf, cls)(channels=x, labels=names, **attrs)
        name, fmt = w.choice("file", (("d.csv", None), ("Data.npy", None), ("d", "TEXT_CSV"), ("d", "NUMPY_NPY")))
        forget(w)
        got = stored(w, cls, d, name, fmt)
        same_data(w, got, x, names if "csv" in name or fmt == "TEXT_CSV" else tuple(f"{name} {i + 1}" for i in range(c)))
        for k, v in attrs.items():
            w.require(w.close(getattr(got, k)(), v, 1e-6) if k != "offset" else getattr(got, k)() == v, k)
    return h


def single(cls):
    """tables with a single row keep its values and its position"""
    def h(w):
        c = w.choice("channels", (1, 2))
        w.texts(FORMATS)
        x = samples(w, (c, 1), cls != "Signal")
        names = tuple(f"l{i}" for i in range(c))
        attrs = axis(w, cls, x, 1)
        d = getattr(w.sumpf, cls)(channels=x, labels=names, **attrs)
        name = w.choice("file", ("d.csv", "d.npy"))
        forget(w)
        got = stored(w, cls, d, name)
        same_data(w, got, x, names if "csv" in name else tuple(f"{name} {i + 1}" for i in range(c)))
        if cls == "Signal":
            w.require(w.and_(w.close(got.time_samples()[0], d.time_samples()[0], 1e-6), got.sampling_rate() > 0), "time of the sample")
        else:
            w.require(w.same(got.frequency_samples()[0], 0.0), "frequency of the bin")
    return h


def foreign(cls):
    """csv files of other programs: with or without a header, with rows in another order, with a gap at the beginning"""
    def h(w):
        import os
        c, n = w.choice("channels", (1, 2)), w.choice("rows", (2, 3))
        header = w.choice("header", ("none", "all", "short", "long"))
        order = w.choice("order", {2: ((0, 1), (1, 0)), 3: ((0, 1, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1))}[n])
        first = w.choice("first", (0, 2, -1))
        w.texts(("plain", "small"))
        x = samples(w, (c, n), cls != "Signal", ("+-",))
        step = w.number("step")
        w.assume(step > 0)
        # the file's numbers are rounded
        e = step * w.choice("rounding", (1e-6, -1e-6))
        number = lambda v: format(v) if w.symbolic else repr(complex(v) if cls != "Signal" and isinstance(v, complex) else float(v))
        with scratch() as d:
            path = os.path.join(d, "d.csv")
            with open(path, "w") as f:
                if header != "none":
                    f.write(",".join(["t"] + [f"l{i}" for i in range(c + {"all": 0, "short": -1, "long": 1}[header])]) + "\n")
                for k in order:
                    f.write(",".join([number((first + k) * step + (e if k == 0 else 0))] + [number(w.at(x, i, k)) for i in range(c)]) + "\n")
            forget(w)
            got = getattr(w.sumpf, cls).load(path)
        if cls == "Signal":
            same_shape(w, got.channels(), (c, n), "samples")
            w.require(w.and_(got.offset() == first, w.close(got.sampling_rate() * step, 1.0, 1e-4)), "time axis")
            shift = 0
        else:
            same_shape(w, got.channels(), (c, n + first), "samples")
            w.require(w.and_(got.resolution() <= step * 1.0001, got.resolution() >= step * 0.9999), "resolution")
            shift = first
            for i in range(c):
                for k in range(shift):
                    w.require(w.identical(w.at(got.channels(), i, k), 0.0), "bins below the first row")
        for i in range(c):
            for k in range(max(0, -shift), n):
                w.require(w.identical(w.at(got.channels(), i, k + shift), w.at(x, i, k)), f"channel {i}, row {k}")
        if header == "none":
            pass
        else:
            w.require(got.labels() == tuple("" if header == "short" and i == c - 1 else f"l{i}" for i in range(c)), "labels")
    return h


def case(name, fn, bounds, witnesses=8):
    return Case(name, fn, backend="B", fallback=None, options=options(nra=True), time_s=150, max_paths=8000, bounds=bounds, witnesses=witnesses)


CASES = [case(f"{c} exact", exact(c), "1 to 3 channels, 1 to 4 samples") for c in CLASSES] + \
        [case(f"{c} chain", chain(c), "1 to 3 channels, 2 to 4 samples, two formats in a row") for c in CLASSES] + \
        [case(f"{c} labels", labels(c), "1 to 2 channels, 0 and 2 samples") for c in CLASSES] + \
        [case(f"{c} tables", tables(c), "1 to 3 channels, 2 to 4 rows") for c in CLASSES[:2]] + \
        [case(f"{c} single", single(c), "1 to 2 channels, one row") for c in CLASSES[:2]] + \
        [case(f"{c} foreign", foreign(c), "1 to 2 channels, 2 to 3 rows") for c in CLASSES[:2]]
