"""The level over time is the root of the mean square in an interval around each sample."""
from .common import *
from .reference import *

ASSUMPTIONS = REALS + ["square roots are known by their sign and their square",
                       "1 to 2 channels, 1 to 7 samples (thorough: 10), integration times of 0 to 18 samples in steps of a quarter; tolerance 1e-6"]


def harness(quarters):
    def h(w):
        c = w.concrete(w.int("channels", 1, 2))
        n = w.concrete(w.int("length", 1, w.limit(7, 10)))
        w.assume(w.or_(c == 1, n in (2, 4)))
        q = w.choice("quarters", quarters)
        pad = w.bool("pad")
        x = w.array("x", (c, n), lo=-1, hi=1)
        o = w.int("offset", -10, 10)
        labels = labels_of("x", c)
        s = w.sumpf.Signal(channels=x, sampling_rate=8.0, offset=o, labels=labels)
        ref = Ref(w, x, labels)
        if q == 32 and w.bool("default_time"):
            r = s.level_vs_time(pad=True) if pad else s.level_vs_time()
        else:
            r = s.level_vs_time(q / 32, True if pad else False)
        length = q / 4
        same_shape(w, r.channels(), (c, n), "levels")
        w.require(w.and_(r.offset() == o, r.sampling_rate() == 8.0), "time axis")
        w.require(r.labels() == labels, "labels")
        for k in range(c):
            for i in range(n):
                total, weights = 0.0, 0.0
                for j in range(n):
                    weight = min(1.0, max(0.0, (length + 1.0) / 2.0 - abs(i - j))) if length > 1.0 else float(i == j)
                    weights += weight
                    total = total + ref.at(k, j) * ref.at(k, j) * weight
                got = w.at(r.channels(), k, i)
                w.require(got >= 0, "levels are not negative")
                w.require(w.close(got * got, total * (1.0 / (max(length, 1.0) if pad else weights))), f"squared level of channel {k}, sample {i}")
        ref.unchanged("signal")
    return h


QUARTERS = list(range(0, 73))
CASES = [Case(f"{a / 4:g} to {(b - 1) / 4:g} samples", harness(QUARTERS[a:b]), backend="B", fallback=None, bounds="length 1..7 (10)")
         for a, b in ((0, 8), (8, 16), (16, 24), (24, 32), (32, 40), (40, 56), (56, 73))]
