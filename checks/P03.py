"""Bands filters keep their supporting points in tables."""
import os
import re

from .common import *
from .storage import *

ASSUMPTIONS = REALS + ["the text of a number identifies it; the values are written with or without an exponent and with up to 17 digits; the frequencies are taken from a list",
                       "up to 3 channels with up to 3 supporting points"]
FORMS = ("plain", "long", "small", "large")
TEXT = ("TEXT_TAB_I", "TEXT_TAB_J", "TEXT_PIPE_I", "TEXT_PIPE_J", "TEXT_GNUPLOT")
# the supporting points of the channels
FREQUENCIES = (((20.0, 1000.0 / 3, 1e-05),), ((63.0, 125.0), (63.0, 125.0)), ((100.0,), (50.0, 200.0)), ((50.0, 200.0), (100.0,)), ((), (1.0, 2.0)), ((1.0, 2.0), ()),
               ((1.0, 3.0), (2.0, 3.0), (1.0, 2.0)), ((), (7e+20,), (0.0, 3e+22)), ((),), ((), ()), ((5,), (5.0, 2)))
SIGNS = ("++", "--", "+-", "-+", "0+", "0-", "+0", "-0", "00")


def signed(w, name, sign):
    if sign == "0":
        return 0.0
    return value(w, name, sign == "-")


def build(w, kinds=("real", "complex", "mixed"), frequencies=FREQUENCIES, labels=None):
    kind = w.choice("values", kinds)
    keys = w.choice("frequencies", frequencies)
    signs = w.choice("signs", SIGNS if kind != "real" else ("++", "--", "0+"))
    bands = []
    for i, ks in enumerate(keys):
        band = {}
        for k, f in enumerate(ks):
            re = signed(w, f"y{i}_{k}r", signs[0] if (i + k) % 2 == 0 else "+")
            band[f] = re if kind == "real" or kind == "mixed" and i % 2 else w.complex_(re, signed(w, f"y{i}_{k}i", signs[1]))
        bands.append(band)
    I = w.sumpf.Bands.interpolations
    flags = (I.LINEAR, I.STAIRS_LOG, I.LOG_X)
    c = len(bands)
    labels = tuple(f"l{i}" for i in range(c)) if labels is None else labels(c)
    return w.sumpf.Bands(bands=bands, interpolations=flags[:c], extrapolations=(I.LOG_X, I.ONE, I.LINEAR)[:c], labels=labels), bands, flags, labels


def same_bands(w, got, bands):
    w.require(isinstance(got, w.sumpf.Filter), "a filter")
    w.require(len(got) == len(bands), "number of channels")
    for i, (tf, band) in enumerate(zip(got.transfer_functions(), bands)):
        w.require(len(tf.xs) == len(tf.ys), "supporting points have a frequency and a value")
        keys = sorted(band)
        w.require(len(tf.xs) == len(keys), f"number of supporting points of channel {i}")
        for k, f in enumerate(keys):
            w.require(w.identical(tf.xs[k], f), f"channel {i}: frequency of point {k}")
            w.require(w.identical(tf.ys[k], band[f]), f"channel {i}: value of point {k}")


def text(w):
    w.texts(w.limit(("long", "small"), FORMS))
    b, bands, _, labels = build(w)
    fmt = w.choice("format", TEXT)
    name = w.choice("file", w.limit(("b.txt", "b.dat", "b"), ("b.txt", "b.dat", "b.asc", "b.tab", "b")))
    forget(w)
    got = stored(w, "Bands", b, name, fmt)
    same_bands(w, got, bands)
    w.require(got.labels() == tuple(f"{name} {i + 1}" for i in range(len(bands))), "labels are the file's name and a number")


def automatic(w):
    """the format is chosen by the file's extension"""
    w.texts(w.limit(("small",), FORMS))
    b, bands, _, labels = build(w, ("complex",), FREQUENCIES[1:4])
    name = w.choice("file", ("b.txt", "b.dat", "b.asc", "b.tab", "b.csv", "b.npy", "b.npz", "b.json", "b.js"))
    forget(w)
    same_bands(w, stored(w, "Bands", b, name), bands)


def named(w):
    """formats with labels"""
    w.texts(w.limit(("long", "small"), FORMS))
    b, bands, flags, labels = build(w)
    name, fmt = w.choice("file", (("b.csv", None), ("b.npz", None), ("b", "TEXT_CSV"), ("b", "NUMPY_NPZ")))
    forget(w)
    got = stored(w, "Bands", b, name, fmt)
    same_bands(w, got, bands)
    w.require(got.labels() == labels, "labels")
    if name == "b.npz" or fmt == "NUMPY_NPZ":
        for i, tf in enumerate(got.transfer_functions()):
            w.require(tf.interpolation == flags[i], f"interpolation of channel {i}")
            w.require(tf.extrapolation == (flags[2], w.sumpf.Bands.interpolations.ONE, flags[0])[i], f"extrapolation of channel {i}")


def arrays(w):
    w.texts(w.limit(("long",), FORMS))
    b, bands, _, _ = build(w)
    name, fmt = w.choice("file", (("b.npy", None), ("b", "NUMPY_NPY")))
    forget(w)
    got = stored(w, "Bands", b, name, fmt)
    same_bands(w, got, bands)
    w.require(got.labels() == tuple(f"{name} {i + 1}" for i in range(len(bands))), "labels are the file's name and a number")


def labels(w):
    """text in labels, which must not be taken for values"""
    w.texts(("plain",))
    i = w.choice("label", range(len(LABELS) + 2))
    texts = LABELS + ("nan", "1.0 # 2")
    b, bands, _, labels = build(w, ("complex",), FREQUENCIES[1:3] + FREQUENCIES[8:9], lambda c: tuple(texts[(i + k) % len(texts)] for k in range(c)))
    fmt = w.choice("format", TEXT + ("TEXT_CSV", "NUMPY_NPZ", "NUMPY_NPY", "TEXT_JSON", "TEXT_REPR"))
    forget(w)
    got = stored(w, "Bands", b, "b", fmt)
    same_bands(w, got, bands)
    if fmt in ("TEXT_CSV", "NUMPY_NPZ", "TEXT_JSON", "TEXT_REPR"):
        w.require(got.labels() == labels, "labels")


# lines of tables as other programs write them, the numbers are filled in
LINES = ("{f}\t{a}", "{f} {a}", "{f}, {a}", "{f} ; {a}", "{f} | {a}\r", "{f}: {a} # comment 5", " {f}   {a}  ;comment 7", "# 1.0 2.0\n{f}\t{a}", "{f}\t{a}\n\n")
VALUES = ("{r}", "{r}+{i}j", "{r}-{i}J", "-{r}+{i}I", "({r}+{i}j)", "(-{r} - {i}I)", "{{{r},{i}}}", "{{-{r} , -{i}}}", "{r} nan", "nan {r}", "{{nan,nan}} {r}")
MEANING = ((1, 0), (1, 1), (1, -1), (-1, 1), (1, 1), (-1, -1), (1, 1), (-1, -1), (1, 0), (1, 0), (1, 0))


NOTATIONS = ("repr", "upper case", "no leading digit")


def respell(text, notation):
    """the same number in another notation"""
    if notation == "upper case":
        return text.upper()
    if notation == "no leading digit":
        if text.startswith("0."):
            return text[1:]
        m = re.match(r"^(\d)(?:\.(\d+))?e([+-]\d+)$", text)
        if m:
            return f".{m[1]}{m[2] or ''}e{int(m[3]) + 1:+03d}"
    return text


def short(w):
    """lines with less columns than others have values for the first channels only"""
    w.texts(("plain",))
    columns = w.choice("columns", ((2, 1), (1, 2), (3, 1), (2, 1, 3), (1, 3, 2), (2, 0, 2), (0, 1)))
    separator = w.choice("separator", ("\t", ", ", " | "))
    bands = [{} for _ in range(max(columns))]
    lines = []
    for k, n in enumerate(columns):
        f = 10.0 * (k + 1)
        row = [repr(f)]
        for c in range(n):
            v = value(w, f"v{k}_{c}", False)
            row.append(format(v) if w.symbolic else repr(float(v)))
            bands[c][f] = v
        lines.append(separator.join(row))
    with scratch() as d:
        path = os.path.join(d, "t.txt")
        with open(path, "w", newline="") as file:
            file.write("\n".join(lines) + "\n")
        forget(w)
        got = w.sumpf.Bands.load(path)
    same_bands(w, got, bands)


def foreign(w):
    """tables of other programs"""
    w.texts(w.limit(("long", "small"), FORMS))
    line = w.choice("line", tuple(l for l in LINES if ";" not in l[:6]))
    k = w.choice("value", range(len(VALUES)))
    f = w.choice("frequency", ("100", "100.0", "1e2", "1.0e+2"))
    n = w.choice("rows", (1, 2))
    keys = (100.0, 250.0)[:n]
    numbers = [(value(w, f"r{j}", False), value(w, f"i{j}", False)) for j in range(n)]
    notation = w.choice("notation", NOTATIONS) if line == LINES[0] else "repr"
    show = lambda x: respell(format(x) if w.symbolic else repr(float(x)), notation)
    with scratch() as d:
        path = os.path.join(d, "t.dat")
        with open(path, "w", newline="") as file:
            for key, (r, i) in zip((f, "250"), numbers):
                file.write(line.format(f=key, a=VALUES[k].format(r=show(r), i=show(i))) + "\n")
        forget(w)
        got = w.sumpf.Bands.load(path)
    sr, si = MEANING[k]
    want = {key: w.complex_(r * sr, i * si) if si else r for key, (r, i) in zip(keys, numbers)}
    channels = {8: [want, {}], 9: [{}, want], 10: [{}, want]}.get(k, [want])
    same_bands(w, got, channels)
    w.require(got.labels() == tuple(f"t.dat {i + 1}" for i in range(len(channels))), "labels")


def case(name, fn, bounds, witnesses=8):
    return Case(name, fn, backend="B", fallback=None, options=options(nra=True), time_s=400, max_paths=8000, bounds=bounds, witnesses=witnesses)


CASES = [case("text", text, "1 to 3 channels"), case("automatic", automatic, "1 to 2 channels"), case("named", named, "1 to 3 channels"), case("arrays", arrays, "1 to 3 channels"),
         case("labels", labels, "1 to 2 channels"), case("foreign", foreign, "1 to 2 channels, 1 to 2 rows"), case("short", short, "1 to 3 channels, 2 to 3 rows")]
