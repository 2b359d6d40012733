"""Noise signals are drawn from their distributions with their parameters and seeds."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["numpy's random generators draw samples that are arbitrary functions of the distribution, its parameters, the seed, the preceding draws, the number of samples and the index"]

# the parameters of each distribution's method of numpy's generators, and their defaults
METHODS = {"uniform": (("low", 0.0), ("high", 1.0)), "normal": (("loc", 0.0), ("scale", 1.0)), "poisson": (("lam", 1.0),), "laplace": (("loc", 0.0), ("scale", 1.0)),
           "vonmises": (("mu", None), ("kappa", None)), "triangular": (("left", None), ("mode", None), ("right", None)), "geometric": (("p", None),),
           "hypergeometric": (("ngood", None), ("nbad", None), ("nsample", None)), "binomial": (("n", None), ("p", None)), "beta": (("a", None), ("b", None)),
           "gamma": (("shape", None), ("scale", 1.0)), "logseries": (("p", None),), "logistic": (("loc", 0.0), ("scale", 1.0)), "pareto": (("a", None),),
           "wald": (("mean", None), ("scale", None)), "chisquare": (("df", None),)}
INTEGERS = ("poisson", "geometric", "hypergeometric", "binomial", "logseries")


def drawn(method, seed, count, parameters, n, i):
    from engine import core
    return core.uf("draw_" + method, seed, count, *parameters, n, i)


class Generator:
    """numpy's random generator"""

    unseeded = 0

    def __init__(self, seed):
        if seed is None:    # differs from all others
            Generator.unseeded += 1
            seed = -Generator.unseeded
        self._seed = seed
        self._count = 0

    def __getattr__(self, name):
        from engine import core
        from engine.symarray import SymArray
        if name.startswith("_") or name not in METHODS:
            raise core.Unsupported(f"random generator: {name}")

        def draw(*args, size=None, **kwargs):
            names = [k for k, _ in METHODS[name]]
            if len(args) > len(names):
                *args, size = args
            given = dict(METHODS[name])
            given.update(zip(names, args))
            given.update(kwargs)
            values = [given.pop(k) for k in names]
            if given:
                raise TypeError(f"{name}() got an unexpected keyword argument")
            if isinstance(size, tuple) and len(size) == 1:
                size = size[0]
            if size is None or isinstance(size, tuple):
                raise core.Unsupported("random generator: size")
            count, self._count = self._count, self._count + 1
            return SymArray.new((size,), numpy.dtype("i8" if name in INTEGERS else "f8"), lambda idx: drawn(name, self._seed, count, values, size, idx[0]), name="noise")
        return draw


def random_module(np):
    import types
    np.random = types.SimpleNamespace(default_rng=lambda seed=None: seed if isinstance(seed, Generator) else Generator(seed))
    return np


OPT = {"shims": {"numpy": random_module}}


def noise(cls, label, method, *parameters):
    """the parameters are the constructor's name, the generator's name, the bounds and the default"""
    def h(w):
        seed = w.int("seed", 0, 10 ** 9)
        n = w.int("length", 0, BIG, (0, 5))
        sr = w.real("sampling_rate", 1, 100000)
        kwargs, values = {}, {}
        how = w.choice("parameters", ("keywords", "positions", "defaults"))
        for name, key, low, high, default in parameters:
            integer = isinstance(low, int)
            v = (w.int if integer else w.real)(name, low, high)
            kwargs[name] = v
            values[key] = default if how == "defaults" else v
        if cls == "TriangularNoise" or cls == "UniformNoise":
            w.assume(kwargs["lower_boundary"] < kwargs["upper_boundary"])
        if cls == "TriangularNoise":
            given = w.choice("mode given", (True, False)) and how != "defaults"
            if given:
                w.assume(w.and_(kwargs["mode"] >= kwargs["lower_boundary"], kwargs["mode"] <= kwargs["upper_boundary"]))
            else:
                kwargs["mode"] = None
                values["mode"] = (values["left"] + values["right"]) / 2.0
        if cls == "HypergeometricNoise" and how != "defaults":
            w.assume(kwargs["draws"] <= kwargs["acceptable"] + kwargs["non_acceptable"])
        make = getattr(w.sumpf, cls)
        if how == "keywords":
            s = make(**kwargs, seed=seed, sampling_rate=sr, length=n)
        elif how == "positions":
            s = make(*[kwargs[p[0]] for p in parameters], seed, sr, n)
        else:
            s = make(seed=seed, sampling_rate=sr, length=n)
        same_shape(w, s.channels(), (1, n), "noise")
        order = [values[k] for k, _ in METHODS[method]]
        if w.symbolic:
            w.forall((n,), lambda i: w.close(w.at(s.channels(), 0, i), drawn(method, seed, 0, order, n, i)), "samples")
        else:
            want = getattr(numpy.random.default_rng(seed), method)(*order, size=n)
            w.forall((n,), lambda i: bool(numpy.isclose(s.channels()[0, i], want[i], rtol=1e-12, atol=0.0)), "samples")
        w.require(s.seed() == seed, "seed")
        w.require(make(length=1).seed() is None, "no seed")
        w.require(w.same(s.sampling_rate(), sr), "sampling rate")
        w.require(s.offset() == 0, "offset")
        w.require(s.labels() == (label,), "label")
    return Case(cls, h, options=OPT, fallback=None, bounds="lengths up to 10^6", time_s=120)


CASES = [noise("UniformNoise", "Uniform noise", "uniform", ("lower_boundary", "low", -100.0, 100.0, -1.0), ("upper_boundary", "high", -100.0, 100.0, 1.0)),
         noise("GaussianNoise", "Gaussian noise", "normal", ("mean", "loc", -100.0, 100.0, 0.0), ("standard_deviation", "scale", 0.0, 100.0, 1.0)),
         noise("PoissonNoise", "Poisson noise", "poisson", ("lambda_", "lam", 0.0, 100.0, 0.0)),
         noise("LaplaceNoise", "Laplace noise", "laplace", ("mean", "loc", -100.0, 100.0, 0.0), ("decay", "scale", 0.0, 100.0, 1.0)),
         noise("VonMisesNoise", "von Mises noise", "vonmises", ("mode", "mu", -3.0, 3.0, 0.0), ("dispersion", "kappa", 0.0, 100.0, 1.0)),
         noise("TriangularNoise", "Triangular noise", "triangular", ("lower_boundary", "left", -100.0, 100.0, -1.0), ("upper_boundary", "right", -100.0, 100.0, 1.0), ("mode", "mode", -100.0, 100.0, 0.0)),
         noise("GeometricNoise", "Geometric noise", "geometric", ("p", "p", 0.125, 1.0, 0.5)),
         noise("HypergeometricNoise", "Hypergeometric noise", "hypergeometric", ("acceptable", "ngood", 0, 100, 1), ("non_acceptable", "nbad", 0, 100, 1), ("draws", "nsample", 1, 100, 1)),
         noise("BinomialNoise", "Binomial noise", "binomial", ("p", "p", 0.0, 1.0, 0.5), ("draws", "n", 0, 100, 1)),
         noise("BetaNoise", "Beta noise", "beta", ("alpha", "a", 0.125, 100.0, 1.0), ("beta", "b", 0.125, 100.0, 1.0)),
         noise("GammaNoise", "Gamma noise", "gamma", ("shape", "shape", 0.0, 100.0, 1.0), ("scale", "scale", 0.0, 100.0, 1.0)),
         noise("LogarithmicNoise", "Logarithmic noise", "logseries", ("p", "p", 0.125, 0.875, 0.5)),
         noise("LogisticNoise", "Logistic noise", "logistic", ("mean", "loc", -100.0, 100.0, 0.0), ("scale", "scale", 0.125, 100.0, 1.0)),
         noise("LomaxNoise", "Lomax noise", "pareto", ("shape", "a", 0.125, 100.0, 1.0)),
         noise("WaldNoise", "Wald noise", "wald", ("mean", "mean", 0.125, 100.0, 1.0), ("scale", "scale", 0.125, 100.0, 1.0)),
         noise("ChiSquareNoise", "Chi-square noise", "chisquare", ("degrees_of_freedom", "df", 0.125, 100.0, 1.0))]
