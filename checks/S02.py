"""Arithmetic with plain numbers and arrays works element by element, in the written operand order, and keeps the axes and labels."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["1 to 3 channels, 1 to 10^6 samples or values (spectrograms: and 1 to 10^6 frequencies); the other operand is any real number, a number per sample, or a number per channel and sample"]


def build(w, kind):
    if kind == "signal":
        return signal(w, "a", cmax=2)
    if kind == "spectrum":
        return spectrum(w, "a", cmax=2)
    return spectrogram(w, "a", cmax=2)


def axes(w, kind, r, ra, label):
    if kind != "spectrum":
        w.require(r.offset() == ra.o, f"{label}: offset kept")
        w.require(r.sampling_rate() == ra.sr, f"{label}: sampling rate kept")
    if kind != "signal":
        w.require(r.resolution() == ra.resolution, f"{label}: resolution kept")
    w.require(r.labels() == ra.labels, f"{label}: labels kept")
    w.require(type(r).__name__ == kind.capitalize(), f"{label}: type of the result")


def check(w, kind, r, ra, fn, label):
    axes(w, kind, r, ra, label)
    dims = w.shape(ra.data)
    same_shape(w, r.channels(), dims, label)
    w.forall(dims, lambda *i: w.same(w.at(r.channels(), *i), fn(*i)), label)
    ra.unchanged(label + ": operand")


def scalar(kind, op):
    fn = OPS[op][0]

    def h(w):
        a, ra = build(w, kind)
        x = w.real("x")
        if w.bool("reflected"):
            r = fn(x, a)
            check(w, kind, r, ra, lambda *i: fn(x, ra.at(*i)), "number on the left")
        else:
            r = fn(a, x)
            check(w, kind, r, ra, lambda *i: fn(ra.at(*i), x), "number on the right")
    return h


def integer(kind, op):
    fn = OPS[op][0]

    def h(w):
        a, ra = build(w, kind)
        x = w.choice("x", (-1, 2, 3))
        if w.bool("reflected"):
            r = fn(x, a)
            check(w, kind, r, ra, lambda *i: fn(x, ra.at(*i)), "integer on the left")
        else:
            r = fn(a, x)
            check(w, kind, r, ra, lambda *i: fn(ra.at(*i), x), "integer on the right")
    return h


def array(kind, op):
    fn = OPS[op][0]

    def h(w):
        a, ra = build(w, kind)
        dims = w.shape(ra.data)
        per_channel = w.bool("full_shape")
        x = w.array("x", dims if per_channel else dims[-1:], "f8" if kind == "signal" else "c16")
        rx = Ref(w, x, None)
        vx = lambda i: rx.at(*i) if per_channel else rx.at(i[-1])
        if w.bool("reflected"):
            check(w, kind, fn(x, a), ra, lambda *i: fn(vx(i), ra.at(*i)), "array on the left")
        else:
            check(w, kind, fn(a, x), ra, lambda *i: fn(ra.at(*i), vx(i)), "array on the right")
        rx.unchanged("array operand")
    return h


def unary(kind):
    def h(w):
        a, ra = build(w, kind)
        check(w, kind, -a, ra, lambda *i: -ra.at(*i), "negation")
        if kind == "spectrum":
            check(w, kind, ~a, ra, lambda *i: 1.0 / ra.at(*i), "inversion")
        if kind == "signal":
            check(w, kind, abs(a), ra, lambda *i: w.abs(ra.at(*i)), "absolute value")
    return h


def foreign(kind):
    def h(w):
        a, ra = build(w, kind)
        for name, (fn, pivot, _) in OPS.items():
            if name == "mod" and kind != "signal":
                continue
            for other in ("text", None, {}):
                try:
                    fn(a, other)
                except TypeError:
                    w.require(True, "refused")
                else:
                    w.fail(f"{name} with {other!r} is refused with a TypeError")
    return h


CASES = []
for kind in ("signal", "spectrum", "spectrogram"):
    b = "channels 1..2, sizes 1..10^6, any number"
    for op in OPS:
        if op == "mod" and kind != "signal":
            continue
        CASES.append(Case(f"{kind} {op} number", scalar(kind, op), bounds=b))
        CASES.append(Case(f"{kind} {op} integer", integer(kind, op), bounds=b))
        CASES.append(Case(f"{kind} {op} array", array(kind, op), bounds=b))
    CASES.append(Case(f"{kind} unary", unary(kind), bounds=b))
    CASES.append(Case(f"{kind} foreign operand", foreign(kind), bounds=b, backend="A"))
