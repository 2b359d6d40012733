"""Waves, constants, maximum length sequences and Rudin-Shapiro spectrums consist of the documented samples."""
import math
import types

from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["the sine is an arbitrary function of its argument", "scipy's maximum length sequences are arbitrary sequences of zeros and ones for each initial state with at least one set bit; "
                                     "registers have two to 32 bits", "numpy's random generators yield arbitrary bits and integers in the requested range"]


# ---- waves
def sine(w, x):
    if w.symbolic:
        from engine import core
        return core.unary("sin", core.real(x))
    return math.sin(x)


def wave(cls, label):
    def h(w):
        n = w.int("length", 1, BIG, (1, 6))
        sr = w.real("sampling_rate", 1, 100000)
        f = w.real("frequency", 0, 100000)
        phase = w.real("phase", -10, 10)
        s = getattr(w.sumpf, cls)(frequency=f, phase=phase, sampling_rate=sr, length=n)
        same_shape(w, s.channels(), (1, n), "wave")

        def right(i):
            y = w.at(s.channels(), 0, i)
            x = sine(w, f * i / sr * (2.0 * math.pi) + phase)
            if cls == "SineWave":
                return w.near(y, x, 1e-7)
            if not w.symbolic and abs(x) < 1e-6:
                return True     # rounding decides about the sign
            return w.same(y, w.ite(x > 0, 1.0, w.ite(x < 0, -1.0, 0.0)))
        w.forall((n,), right, "samples")
        w.require(w.close(s.periods(), f * n / sr), "number of periods")
        w.require(w.and_(w.same(s.sampling_rate(), sr), s.offset() == 0), "axis")
        w.require(s.labels() == (label,), "label")
    return Case(cls, h, fallback=None, bounds="lengths up to 10^6", time_s=120)


# ---- constants
def constant_signal(w):
    n = w.int("length", 0, BIG, (0, 5))
    sr = w.real("sampling_rate", 1, 100000)
    v = w.real("value", -100, 100)
    s = w.sumpf.ConstantSignal(v, sr, n) if w.choice("parameters", ("positions", "keywords")) == "positions" else w.sumpf.ConstantSignal(value=v, sampling_rate=sr, length=n)
    same_shape(w, s.channels(), (1, n), "constant")
    w.forall((n,), lambda i: w.same(w.at(s.channels(), 0, i), v), "samples")
    w.require(w.and_(w.same(s.sampling_rate(), sr), s.offset() == 0), "axis")
    w.require(s.labels() == ("Constant",), "label")


def value_of(w):
    if w.choice("value", ("real", "complex")) == "real":
        return w.real("real", -100, 100)
    return w.complex_(w.real("real", -100, 100), w.real("imaginary", -100, 100))


def constant_spectrum(w):
    n = w.int("length", 0, BIG, (0, 5))
    resolution = w.real("resolution", 1, 100000)
    v = value_of(w)
    s = w.sumpf.ConstantSpectrum(v, resolution, n) if w.choice("parameters", ("positions", "keywords")) == "positions" else w.sumpf.ConstantSpectrum(value=v, resolution=resolution, length=n)
    same_shape(w, s.channels(), (1, n), "constant")
    w.forall((n,), lambda i: w.same(w.at(s.channels(), 0, i), v), "bins")
    w.require(w.same(s.resolution(), resolution), "resolution")
    w.require(s.labels() == ("Constant",), "label")


def constant_spectrogram(w):
    n = w.int("length", 0, BIG, (0, 4))
    m = w.int("frequencies", 0, BIG, (0, 4))
    resolution = w.real("resolution", 1, 100000)
    sr = w.real("sampling_rate", 1, 100000)
    v = value_of(w)
    s = w.sumpf.ConstantSpectrogram(v, resolution, sr, m, n) if w.choice("parameters", ("positions", "keywords")) == "positions" else \
        w.sumpf.ConstantSpectrogram(value=v, resolution=resolution, sampling_rate=sr, number_of_frequencies=m, length=n)
    same_shape(w, s.channels(), (1, m, n), "constant")
    w.forall((m, n), lambda f, i: w.same(w.at(s.channels(), 0, f, i), v), "bins")
    w.require(w.and_(w.same(s.resolution(), resolution), w.same(s.sampling_rate(), sr), s.offset() == 0), "axes")
    w.require(s.labels() == ("Constant",), "label")


# ---- Rudin-Shapiro noise
def sign(k):
    """minus one to the number of pairs of neighbouring ones among the bits of the index"""
    return -1.0 if bin(k & (k >> 1)).count("1") % 2 else 1.0


def rudin_shapiro(low, high):
    def h(w):
        n = w.int("length", 0, BIG, (0, 80))
        start = w.int("start", 0, BIG, (0, 10))
        resolution = w.choice("resolution", (1.0, 0.5, 3.0))
        between = w.choice("between", (0.0, 0.25, -0.25))    # frequencies between the bins are rounded
        first = w.min(start, n)
        if w.choice("stop given", (True, False)):
            stop = w.int("stop", 0, BIG, (0, 80))
            last = w.min(stop, n)
            kwargs = {"stop_frequency": (stop + between) * resolution}
        else:
            last = n
            kwargs = {}
        count = last - first
        if low is None:
            w.assume(count <= 0)
            size = 0
        else:
            w.assume(w.and_(count >= low, count <= high))
            size = w.concrete(count)
        w.assume(w.or_(start > 0, between >= 0))
        s = w.sumpf.RudinShapiroNoiseSpectrum(start_frequency=(start + between) * resolution, **kwargs, resolution=resolution, length=n)
        same_shape(w, s.channels(), (1, n), "spectrum")
        signs = [sign(k) for k in range(size)]

        for k in range(size):
            w.require(w.same(w.at(s.channels(), 0, first + k), w.complex_(signs[k], 0.0)), "signs")
        w.forall((n,), lambda i: w.or_(w.and_(i >= first, i < first + size), w.same(w.at(s.channels(), 0, i), w.complex_(0.0, 0.0))), "zero outside")
        w.require(s.sequence_length() == size, "length of the sequence")
        w.require(s.resolution() == resolution, "resolution")
        w.require(s.labels() == ("Noise",), "label")
    return h


# ---- maximum length sequences
class Generator:
    """numpy's random generator"""

    unseeded = 0

    def __init__(self, seed):
        if seed is None:    # differs from all others
            Generator.unseeded += 1
            seed = -Generator.unseeded
        self._seed = seed
        self._count = 0

    def __getattr__(self, name):
        from engine import core
        raise core.Unsupported(f"random generator: {name}")

    def choice(self, a, size=None):
        from engine import core
        from engine.npobj import OA
        if tuple(a) != (False, True) or size is None:
            raise core.Unsupported("random generator: choice")
        count, self._count = self._count, self._count + 1
        r = numpy.empty(int(size), bool)
        for i in range(int(size)):
            r[i] = bool(core.uf("bit", self._seed, count, i) > 0.5)
        return r

    def integers(self, low, high=None, size=None, endpoint=False):
        from engine import core
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        if size is not None:
            raise core.Unsupported("random generator: integers")
        if low >= high:
            raise ValueError("low >= high")
        count, self._count = self._count, self._count + 1
        x = core.uf("integer", self._seed, count, low, high)
        for i in range(low, high - 1):
            if bool(x < i + 0.5):
                return i
        return high - 1


def random_module(np):
    np.random = types.SimpleNamespace(default_rng=lambda seed=None: Generator(seed))
    return np


RECORD = []


def scipy_signal(np):
    import scipy.signal
    m = types.ModuleType("scipy.signal")
    m.__dict__.update(vars(scipy.signal))

    def max_len_seq(nbits, state=None, length=None, taps=None):
        from engine import core
        from engine.npobj import OA
        if taps is not None or state is None:
            raise core.Unsupported("maximum length sequence")
        nbits = int(nbits)
        if not 2 <= nbits <= 32:
            raise ValueError("nbits must be between 2 and 32 if taps is None")
        state = numpy.array(state, dtype=bool, order="C").astype(numpy.int8)
        if state.ndim != 1 or state.size != nbits:
            raise ValueError("state must be a 1-D array of size nbits")
        if numpy.all(state == 0):
            raise ValueError("state must not be all zeros")
        n = 2 ** nbits - 1 if length is None else int(length)
        if n < 0:
            raise ValueError("length must be greater than or equal to 0")
        r = numpy.empty(n, object)
        for i in range(n):
            v = core.uf("sequence", nbits, *[int(b) for b in state], i)
            core.ctx().assume_quiet(core.to_z3bool(v >= 0.0))
            core.ctx().assume_quiet(core.to_z3bool(v <= 1.0))
            r[i] = v
        RECORD.append((nbits, n, [v for v in r]))
        return r.view(OA), state
    m.max_len_seq = max_len_seq
    return m


def sequence(bits, length, want_bits, want_length):
    def h(w):
        seed = w.int("seed", 0, 10 ** 9)
        sr = w.real("sampling_rate", 1, 100000)
        kwargs = {}
        if bits is not None:
            kwargs["bits"] = bits
        if length is not None:
            kwargs["length"] = length
        # numpy's generator is replaced in the encoding, so that a replay must look for a seed that leads to the state
        for each in (seed,) if w.symbolic else (seed,) + tuple(range(60)):
            check_sequence(w, kwargs, each, sr, want_bits, want_length)
    return h


def check_sequence(w, kwargs, seed, sr, want_bits, want_length):
    del RECORD[:]
    s = w.sumpf.MaximumLengthSequence(**kwargs, seed=seed, sampling_rate=sr)
    same_shape(w, s.channels(), (1, want_length), "sequence")
    w.require(s.bits() == want_bits, "bits")
    w.require(s.period_length() == 2 ** want_bits - 1, "length of a period")
    w.require(w.close(s.periods(), want_length / (2 ** want_bits - 1)), "number of periods")
    w.require(w.and_(w.same(s.sampling_rate(), sr), s.offset() == 0), "axis")
    w.require(s.labels() == ("MLS",), "label")
    x = [s.channels()[0, i] for i in range(want_length)]
    if w.symbolic:
        w.require(len(RECORD) == 1, "one sequence")
        nbits, n, values = RECORD[0]
        w.require(nbits == want_bits and n == want_length, "size of the sequence")
        for i in range(want_length):
            w.require(w.close(x[i], values[i] * 2.0 - 1.0), "samples")
    else:
        period = 2 ** want_bits - 1
        w.require(set(x) <= {-1.0, 1.0}, "samples are plus or minus one")
        w.require(all(x[i] == x[i - period] for i in range(period, want_length)), "periodic")
        if want_length >= period:
            # each state of the register occurs once, except for zero
            y = x[:period] * 2
            states = {tuple(y[i:i + want_bits]) for i in range(period)}
            w.require(len(states) == period, "maximum length")
            w.require((-1.0,) * want_bits not in states, "never zero")
    again = w.sumpf.MaximumLengthSequence(**kwargs, seed=seed, sampling_rate=sr)
    for i in range(want_length):
        w.require(w.same(again.channels()[0, i], x[i]), "reproducible")


MLS = {"shims": {"numpy": random_module, "scipy.signal": scipy_signal}}
# bits, length and the resulting bits and length
SEQUENCES = [(None, k, max(2, math.ceil(math.log2(k + 1))), k) for k in (0, 1, 2, 3, 4, 7, 8, 15, 16)] + \
            [(k, None, k, 2 ** k - 1) for k in (2, 3, 4, 5)] + \
            [(2, 7, 2, 7), (3, 5, 3, 5), (3, 7, 3, 7), (4, 3, 4, 3), (5, 0, 5, 0), (6, 70, 6, 70)]
CASES = [wave("SineWave", "Sine"), wave("SquareWave", "Square wave"),
         Case("ConstantSignal", constant_signal, fallback=None, bounds="lengths up to 10^6"),
         Case("ConstantSpectrum", constant_spectrum, fallback=None, bounds="lengths up to 10^6"),
         Case("ConstantSpectrogram", constant_spectrogram, fallback=None, bounds="lengths up to 10^6")]
CASES += [Case(f"RudinShapiroNoiseSpectrum {a} to {b}" if a is not None else "RudinShapiroNoiseSpectrum empty", rudin_shapiro(a, b), fallback=None,
               bounds="lengths and frequencies up to 10^6, sequences of up to 33 bins", time_s=300) for a, b in ((None, None), (1, 9), (10, 17), (18, 25), (26, 33))]
CASES += [Case(f"MaximumLengthSequence bits {b} length {n}", sequence(b, n, x, y), backend="B", fallback=None, options=MLS, bounds="registers of up to 6 bits", time_s=200) for b, n, x, y in SEQUENCES]
