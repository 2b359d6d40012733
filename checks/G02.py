"""Windows consist of the window function's flanks around a plateau."""
import math
import types

from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["the window functions of numpy and scipy are arbitrary functions of their parameters, the length and the index, "
                                     "except for the sums of cosines and the exponential and the Gaussian one, which are defined by their formulas"]

# the coefficients of the sums of cosines, with alternating signs
NUTTALL = {"NUTTALL3": (0.375, 0.5, 0.125), "NUTTALL3A": (0.40897, 0.5, 0.09103), "NUTTALL3B": (0.4243801, 0.4973406, 0.0782793),
           "NUTTALL4": (0.3125, 0.46875, 0.1875, 0.03125), "NUTTALL4A": (0.338946, 0.481973, 0.161054, 0.018027),
           "NUTTALL4B": (0.355768, 0.487396, 0.144232, 0.012604), "NUTTALL4C": (0.3635819, 0.4891775, 0.1365995, 0.0106411)}
FLAT = {"SFT3F": (0.26526, 0.5, 0.23474), "SFT4F": (0.21706, 0.42103, 0.28294, 0.07897), "SFT5F": (0.1881, 0.36923, 0.28702, 0.13077, 0.02488),
        "SFT3M": (0.28235, 0.52105, 0.19659), "SFT4M": (0.241906, 0.460841, 0.255381, 0.041872),
        "SFT5M": (0.209671, 0.407331, 0.281225, 0.092669, 0.0091036), "FTNI": (0.2810639, 0.5208972, 0.1980399),
        "FTHP": (1.0, 1.912510941, 1.079173272, 0.1832630879), "FTSRS": (1.0, 1.93, 1.29, 0.388, 0.028), "HFT70": (1.0, 1.90796, 1.07349, 0.18199),
        "HFT90D": (1.0, 1.942604, 1.340318, 0.440811, 0.043097), "HFT95": (1.0, 1.9383379, 1.3045202, 0.4028270, 0.0350665),
        "HFT116D": (1.0, 1.9575375, 1.4780705, 0.6367431, 0.1228389, 0.0066288),
        "HFT144D": (1.0, 1.96760033, 1.57983607, 0.81123644, 0.22583558, 0.02773848, 0.00090360),
        "HFT169D": (1.0, 1.97441842, 1.65409888, 0.95788186, 0.33673420, 0.06364621, 0.00521942, 0.00010599),
        "HFT196D": (1.0, 1.979280420, 1.710288951, 1.081629853, 0.448734314, 0.112376628, 0.015122992, 0.000871252, 0.000011896),
        "HFT223D": (1.0, 1.98298997309, 1.75556083063, 1.19037717712, 0.56155440797, 0.17296769663, 0.03233247087, 0.00324954578, 0.00013801040, 0.00000132725),
        "HFT248D": (1.0, 1.985844164102, 1.791176438506, 1.282075284005, 0.667777530266, 0.240160796576, 0.056656381764, 0.008134974479, 0.000624544650,
                    0.000019808998, 0.000000132974)}


# ---- the functions that numpy and scipy offer to the code
def array_of(n, element):
    from engine.symarray import SymArray
    return SymArray.new((n,), numpy.dtype("f8"), lambda idx: element(idx[0]), name="window")


def unknown(name, n, i, *parameters):
    from engine import core
    return core.uf(name, *parameters, n, i)


def cosines(n, i, coefficients):
    """a sum of cosines, given by their coefficients"""
    from engine import core
    return core.ite(n <= 1, 1.0, sum((c * cosine(n, i, k) for k, c in enumerate(coefficients)), 0.0))


def cosine(n, i, k):
    from engine import core
    r = unknown("cosine", n, i, k)
    core.ctx().assume_quiet(core.to_z3bool(r <= 1.0))
    core.ctx().assume_quiet(core.to_z3bool(r >= -1.0))
    return r


def decay(n, i, tau):
    from engine import core
    return core.ite(n <= 1, 1.0, core.unary("exp", core.real(abs(i - (n - 1) / 2.0)) * -core.real(tau).reciprocal()))


def bell(n, i, std):
    from engine import core
    x = (i - (n - 1) / 2.0) * core.real(std).reciprocal()
    return core.ite(n <= 1, 1.0, core.unary("exp", x * x * -0.5))


def plain(np):
    for name in ("bartlett", "hanning", "hamming", "blackman"):
        setattr(np, name, lambda M, name=name: array_of(M, lambda i: unknown(name, M, i)))
    np.kaiser = lambda M, beta: array_of(M, lambda i: unknown("kaiser", M, i, beta))
    return np


def scipy_signal(np):
    import scipy.signal
    m = types.ModuleType("scipy.signal")
    m.__dict__.update(vars(scipy.signal))
    m.windows = windows = types.ModuleType("scipy.signal.windows")
    for name in ("barthann", "blackmanharris", "bohman", "flattop", "parzen"):
        setattr(windows, name, lambda M, sym=True, name=name: array_of(M, lambda i: unknown(name, M, i, 1 if sym else 0)))
    windows.chebwin = lambda M, at, sym=True: array_of(M, lambda i: unknown("chebwin", M, i, at, 1 if sym else 0))
    windows.dpss = lambda M, NW, Kmax=None, sym=True, norm=None, return_ratios=False: array_of(
        M, lambda i: unknown("dpss", M, i, NW, 1 if sym else 0, {None: 0, "subsample": 1}.get(norm, 2)))
    windows.general_cosine = lambda M, a, sym=True: array_of(M, lambda i: cosines(M, i, a))
    windows.exponential = lambda M, center=None, tau=1.0, sym=True: array_of(M, lambda i: decay(M, i, tau))
    windows.gaussian = lambda M, std, sym=True: array_of(M, lambda i: bell(M, i, std))
    return m


SHIMS = {"shims": {"numpy": plain, "scipy.signal": scipy_signal}}


# ---- their values for the reference
def reference(w, name, n, i, *parameters):
    if w.symbolic:
        return unknown(name, n, i, *parameters)
    key = (name, n) + parameters
    known = w.__dict__.setdefault("windows", {})
    if key not in known:
        import scipy.signal
        p = scipy.signal.windows
        known[key] = {"bartlett": numpy.bartlett, "hanning": numpy.hanning, "hamming": numpy.hamming, "blackman": numpy.blackman, "kaiser": numpy.kaiser,
                      "barthann": p.barthann, "blackmanharris": p.blackmanharris, "bohman": p.bohman, "flattop": p.flattop, "parzen": p.parzen, "chebwin": p.chebwin,
                      "dpss": lambda M, NW, *_: p.dpss(M, NW, norm="subsample")}[name](n, *parameters)
    return known[key][i] if 0 <= i < n else 0.0


def formula(w, n, i, coefficients):
    if w.symbolic:
        return cosines(n, i, coefficients)
    x = 2.0 * math.pi * i / (n - 1) - math.pi if n > 1 else 0.0
    return sum(c * math.cos(k * x) for k, c in enumerate(coefficients)) if n > 1 else 1.0


def exp(w, x):
    if w.symbolic:
        from engine import core
        return core.unary("exp", core.real(x))
    return math.exp(x)


def over(x):
    """the inverse of a number that is not zero where it matters"""
    from engine import core
    return core.real(x).reciprocal() if core.is_sym(x) else 1.0 / x


def simple(name):
    return lambda w: ((), {}, lambda n, i: reference(w, name, n, i))


def scipys(name):
    return lambda w: ((), {}, lambda n, i: reference(w, name, n, i, 1) if name != "parzen" or w.symbolic else reference(w, name, n, i))


def rectangular(w):
    return (), {}, lambda n, i: 1.0


def kaiser(w):
    beta = w.real("beta", 0, 20)
    return (), {"beta": beta}, lambda n, i: reference(w, "kaiser", n, i, beta)


def slepian(w):
    beta = w.real("beta", 3, 20)
    return (), {"beta": beta}, lambda n, i: w.ite(n <= 2, 1.0, reference(w, "dpss", n, i, beta / math.pi, 1, 1))


def dolph(w):
    at = w.real("attenuation", 50, 200)

    def value(n, i):
        if not w.symbolic and n <= 2:
            return 1.0
        return w.ite(n <= 2, 1.0, reference(w, "chebwin", n, i, at, 1) / reference(w, "chebwin", n, n // 2, at, 1))
    return (), {"attenuation": at}, value


def exponential(w):
    d = w.choice("decay", (0.0, 32.0, 100.0, 0.5))

    def value(n, i):
        if d == 0.0 or (not w.symbolic and n <= 1):
            return 1.0
        x = exp(w, abs(i - (n - 1) / 2.0) * over(n - 1) * (-math.log(10.0) * d) / 10.0)
        return w.ite(n <= 1, 1.0, x)
    return (), {"decay": d}, value


def gaussian(w):
    sd = w.real("standard_deviation", 0.125, 8)

    def value(n, i):
        if not w.symbolic and n <= 1:
            return 1.0
        x = (i - (n - 1) / 2.0) * over(sd * (n - 1) / 2.0)
        return w.ite(n <= 1, 1.0, exp(w, x * x * -0.5))
    return (), {"standard_deviation": sd}, value


def nuttall(w):
    k = w.choice("function", tuple(NUTTALL))
    return (), {"function": getattr(w.sumpf.NuttallWindow.functions, k)}, lambda n, i: formula(w, n, i, NUTTALL[k])


def flat(w):
    k = w.choice("function", ("DEFAULT",) + tuple(FLAT))
    f = getattr(w.sumpf.FlatTopWindow.functions, k)
    if k == "DEFAULT":
        return (), {"function": f}, lambda n, i: reference(w, "flattop", n, i, 1)
    # those that are not normalized have one as their first coefficient
    total = sum(FLAT[k]) if FLAT[k][0] == 1.0 else 1.0

    def value(n, i):
        if not w.symbolic:
            return formula(w, n, i, FLAT[k]) / total
        return w.ite(n <= 1, 1.0 / total, formula(w, n, i, [c / total for c in FLAT[k]]))
    return (), {"function": f}, value


def samples(w, s, n, p, symmetric, value, label):
    if bool(p == 0):
        m, fade = n if symmetric else n + 1, n
    else:
        m, fade = (n - p) // 2 * 2 + (0 if symmetric else 1), (n - p) // 2

    def want(i):
        if not w.symbolic:
            return value(m, i) if i < fade else 1.0 if i < n - fade else value(m, i - n + 2 * fade)
        return w.ite(i < fade, value(m, i), w.ite(i < n - fade, 1.0, value(m, i - n + 2 * fade)))
    same_shape(w, s.channels(), (1, n), "window")
    w.forall((n,), lambda i: w.close(w.at(s.channels(), 0, i), want(i)), "samples")
    w.require(s.labels() == (label,), "label")
    w.require(s.offset() == 0, "offset")
    w.require(s.symmetric() is symmetric, "symmetric")
    w.require(s.plateau() == p, "plateau")


def parameters(w, small, fractions=()):
    n = w.int("length", small, BIG, (small, 6))
    symmetric = w.choice("symmetric", (True, False))
    sr = w.real("sampling_rate", 1, 100000)
    how = w.choice("plateau", ("none", "default", "plain", "negative"))
    p = 0
    kwargs = {}
    if how == "none":
        kwargs = {"plateau": 0}
    elif how != "default":
        p = w.int("plateau_length", 1, BIG, (1, 6))
        w.assume(p < n if how == "negative" else p <= n)
        kwargs = {"plateau": p - n if how == "negative" else p}
    return n, symmetric, sr, p, kwargs


def window(name, label, build, small=1):
    def h(w):
        args, kw, value = build(w)
        n, symmetric, sr, p, kwargs = parameters(w, small)
        if name == "SlepianWindow" or name == "DolphChebyshevWindow":
            w.assume(n - p > 6)     # scipy warns about shorter ones or cannot compute them
        s = getattr(w.sumpf, name)(*args, **kw, **kwargs, sampling_rate=sr, length=n, symmetric=symmetric)
        w.require(w.same(s.sampling_rate(), sr), "sampling rate")
        samples(w, s, n, p, symmetric, value, label)
    return h


def arbitrary(w):
    Window = w.module("sumpf._data._signals._windows").Window

    class Arbitrary(Window):
        def _function(self, length):
            return w.function("window", length)

        def _label(self):
            return "Arbitrary"
    n, symmetric, sr, p, kwargs = parameters(w, 1)
    known = {}

    def value(m, i):
        if w.symbolic:
            return unknown("window", m, i)
        if m not in known:
            known[m] = w.function("window", m)
        return known[m][i] if 0 <= i < m else 0.0
    s = Arbitrary(sampling_rate=sr, length=n, symmetric=symmetric, **kwargs)
    samples(w, s, n, p, symmetric, value, "Arbitrary")


CLASSES = (("RectangularWindow", "Rectangular window", rectangular), ("BartlettWindow", "Bartlett window", simple("bartlett")),
           ("HannWindow", "Hann window", simple("hanning")), ("HammingWindow", "Hamming window", simple("hamming")),
           ("BlackmanWindow", "Blackman window", simple("blackman")), ("KaiserWindow", "Kaiser window", kaiser),
           ("BartlettHannWindow", "Bartlett-Hann window", scipys("barthann")), ("BlackmanHarrisWindow", "Blackman-Harris window", scipys("blackmanharris")),
           ("BohmanWindow", "Bohman window", scipys("bohman")), ("DolphChebyshevWindow", "Dolph-Chebyshev window", dolph),
           ("ExponentialWindow", "Exponential window", exponential), ("FlatTopWindow", "Flat top window", flat), ("GaussianWindow", "Gaussian window", gaussian),
           ("NuttallWindow", "Nuttall window", nuttall), ("ParzenWindow", "Parzen window", scipys("parzen")), ("SlepianWindow", "Slepian window", slepian))
CASES = [Case("arbitrary function", arbitrary, options=SHIMS, fallback=None, bounds="lengths up to 10^6", time_s=120)] + \
        [Case(n, window(n, l, f), options=SHIMS, fallback=None, bounds="lengths up to 10^6", time_s=200) for n, l, f in CLASSES]
