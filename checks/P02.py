"""Audio files contain the signal's samples, rounded to the file's resolution."""
import contextlib
import sys

from .common import *
from .storage import *

ASSUMPTIONS = REALS + ["1 to 3 channels; lengths around the multiples of the 2048 samples that are processed at once; samples that are not next to these multiples or the ends are zero",
                       "the audio formats that do not require an additional library: 8, 16 and 32 bit integers in WAV and AIFF files"]
FORMATS = (("s.wav", "WAV_UINT8", 8), ("s.wav", "WAV_INT16", 16), ("s.wav", "WAV_INT32", 32), ("s.aiff", "AIFF_INT8", 8), ("s.aif", "AIFF_INT16", 16), ("s.aifc", "AIFF_INT32", 32))
RATES = ((44100.0, 44100), (0.3, 1), (47999.6, 48000), (192000.4, 192000), (8000, 8000))


def build(w, c, n, rate, positions=(0, 1, 2046, 2047, 2048, 2049, 4095, 4096), lo=-1, hi=1):
    where = sorted({p for p in positions + (n - 1,) if p < n})
    values = {}
    for k in range(c):
        for p in where:
            v = w.real(f"x{k}_{p}", lo, hi, np=True)
            values[k, p] = v
    rows = [[values.get((k, p), 0.0) for p in range(n)] for k in range(c)]
    x = w.np.array(rows)
    labels = labels_of("l", c)
    return w.sumpf.Signal(channels=x, sampling_rate=rate, offset=w.choice("offset", (0, 5, -3)), labels=labels), Ref(w, x, labels, c=c, n=n), values


@contextlib.contextmanager
def standard_library():
    """the additional library for audio files is not there"""
    keep = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "soundfile"}
    sys.modules["soundfile"] = None
    try:
        yield
    finally:
        del sys.modules["soundfile"]
        sys.modules.update(keep)


def saved(w, *args):
    forget(w)
    with standard_library():
        return stored(w, "Signal", *args)


def check(w, got, ref, values, name, bits, rate):
    same_shape(w, got.channels(), (ref.c, ref.n), "samples")
    w.require(got.sampling_rate() == rate, "sampling rate is the rounded one")
    w.require(got.offset() == 0, "no offset")
    w.require(got.labels() == tuple(f"{name} {i + 1}" for i in range(ref.c)), "labels are the file's name and a number")
    step = 2.0 ** (1 - bits)
    y = got.channels()
    for (k, p), v in values.items():
        d = w.at(y, k, p) - v
        w.require(w.and_(d <= step / 2, d >= -step), f"channel {k}, sample {p}: rounded to the resolution of {bits} bits")
        w.require(w.or_(d >= -step / 2, v > 1.0 - step), f"channel {k}, sample {p}: rounded down at full scale only")
    for k in range(ref.c):
        for p in range(ref.n):
            if (k, p) not in values:
                r = w.at(y, k, p)
                if not (isinstance(r, (int, float)) and r == 0.0):
                    w.require(w.same(r, 0.0), f"channel {k}, sample {p}: silence")
    ref.unchanged("saved signal")


def lengths(kind):
    def h(w):
        w.texts(("plain",))
        n = w.choice("length", {"short": (1, 2, 3), "block": (2047, 2048, 2049), "blocks": (4095, 4096, 4097)}[kind])
        c = w.choice("channels", (1, 2, 3) if kind != "blocks" else w.limit((1,), (1, 2)))
        name, fmt, bits = w.choice("format", FORMATS if kind == "short" else w.limit(FORMATS[:2] + FORMATS[4:5], FORMATS))
        s, ref, values = build(w, c, n, 44100.0)
        check(w, saved(w, s, name, fmt), ref, values, name, bits, 44100)
    return h


def rates(w):
    w.texts(("plain",))
    rate, want = w.choice("rate", RATES)
    name, fmt, bits = w.choice("format", FORMATS)
    s, ref, values = build(w, 1, 2, rate)
    check(w, saved(w, s, name, fmt), ref, values, name, bits, want)


def again(w):
    """the writers and readers do not keep anything of the previous file"""
    w.texts(("plain",))
    name, fmt, bits = w.choice("format", FORMATS)
    c1, n1 = w.choice("first", ((1, 3), (2, 2), (3, 1)))
    c2, n2 = w.choice("second", ((1, 1), (2, 3), (3, 2)))
    first = w.sumpf.Signal(channels=w.np.array([[w.real(f"first{k}_{p}", -1, 1, np=True) for p in range(n1)] for k in range(c1)]), sampling_rate=48000.0)
    s, ref, values = build(w, c2, n2, 44100.0)
    saved(w, first, name, fmt)
    check(w, saved(w, s, name, fmt), ref, values, name, bits, 44100)


def automatic(w):
    """the format is chosen by the extension"""
    w.texts(("plain",))
    name = w.choice("file", ("s.wav", "s.aiff", "s.aif", "s.aifc"))
    s, ref, values = build(w, w.choice("channels", (1, 2)), 2, 44100.0)
    check(w, saved(w, s, name), ref, values, name, 24, 44100)


def case(name, fn, bounds, witnesses=8):
    return Case(name, fn, backend="B", fallback=None, options=options(nra=True), time_s=300, max_paths=8000, bounds=bounds, witnesses=witnesses)


CASES = [case("blocks", lengths("blocks"), "1 to 2 channels, 4095 to 4097 samples", 2), case("block", lengths("block"), "1 to 3 channels, 2047 to 2049 samples", 2),
         case("short", lengths("short"), "1 to 3 channels, 1 to 3 samples"),
         case("rates", rates, "five sampling rates"), case("again", again, "two files in a row"), case("automatic", automatic, "1 to 2 channels, 2 samples")]
