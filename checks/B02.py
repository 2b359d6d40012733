"""Concatenating adds the data sets up, each of which starts at the end of the previous one plus its offset."""
from .common import *

ASSUMPTIONS = REALS + UFS + MODEL + ["2 to 3 data sets (4 in the thorough tier) of 1 to 2 channels, any lengths and offsets up to 10^6"]


def starts(refs):
    r, index = [], 0
    for ref in refs:
        start = index + ref.o
        index = start + ref.n
        r.append(start)
    return r


def wanted(w, refs, begin):
    """the value at a time"""
    def value(c, *rest):
        t = rest[-1]
        r = 0.0
        for ref, start in zip(refs, begin):
            if c >= ref.c:
                continue
            inside = w.and_(t >= start, t < start + ref.n)
            if len(rest) == 2:
                inside = w.and_(inside, rest[0] < ref.f)
            r = r + w.ite(inside, ref.at(c, *rest[:-1], t - start), 0.0)
        return r
    return value


def compare(w, got, refs, spectrograms):
    begin = starts(refs)
    first = w.min(*begin)
    last = w.max(*(b + r.n for b, r in zip(begin, refs)))
    c = max(r.c for r in refs)
    w.require(got.offset() == first, "starts with the first data set")
    shape = (c,) + ((w.max(*(r.f for r in refs)),) if spectrograms else ()) + (last - first,)
    same_shape(w, got.channels(), shape, "concatenation")
    w.require(got.sampling_rate() == refs[0].sr, "sampling rate")
    if spectrograms:
        w.require(got.resolution() == refs[0].resolution, "resolution")
    w.require(got.labels() == tuple(f"Concatenation {i + 1}" for i in range(c)), "labels")
    value = wanted(w, refs, begin)
    for k in range(c):
        if spectrograms:
            w.forall(shape[1:], lambda f, t: w.same(w.at(got.channels(), k, f, t), value(k, f, t + first)), f"channel {k}")
        else:
            w.forall(shape[1:], lambda t: w.same(w.at(got.channels(), k, t), value(k, t + first)), f"channel {k}")
    for i, r in enumerate(refs):
        r.unchanged(f"data set {i}")


def build(w, data, how="constructor"):
    if how == "constructor":
        return w.sumpf.Concatenate([d for d, _ in data])
    block = w.sumpf.Concatenate()
    for d, _ in data:
        block.add(d)
    return block


def concatenate(make, spectrograms, channels, **kwargs):
    def h(w):
        data = [make(w, f"d{i}", channels=c, small_n=2, small_o=3, **kwargs) for i, c in enumerate(channels)]
        got = build(w, data).output()
        compare(w, got, [r for _, r in data], spectrograms)
    return h


def types(w):
    """data sets of different types of numbers"""
    kinds = w.choice("types", (("i8", "f8"), ("f4", "f8"), ("f8", "i8"), ("i4", "i8"), ("i8", "f4", "f8")))
    data = []
    for i, d in enumerate(kinds):
        n, o = w.int(f"n{i}", 1, 2), w.int(f"o{i}", -1, 1)
        n, o = w.concrete(n), w.concrete(o)
        values = [[w.real(f"x{i}_{k}", -8, 8, np=True) for k in range(n)]] if d == "f8" else [[3 * k - 2 + i for k in range(n)]]
        x = w.np.array(values) if d == "f8" else w.np.array(values, dtype=d)
        labels = labels_of("l", 1)
        data.append((w.sumpf.Signal(channels=x, sampling_rate=40000.0, offset=o, labels=labels), Ref(w, x, labels, c=1, n=n, o=o, sr=40000.0)))
    compare(w, build(w, data).output(), [r for _, r in data], False)


def histories(make, spectrograms):
    """data sets are added, replaced and removed in between"""
    def h(w):
        kwargs = dict(channels=1, nmin=1, nmax=2, omax=1)
        if spectrograms:
            kwargs.update(fmin=1, fmax=1)
        data = [make(w, f"d{i}", **kwargs) for i in range(3)]
        state = {}
        order = []
        steps = w.choice("steps", HISTORIES)
        block = w.sumpf.Concatenate()
        for step in steps:
            what, *args = step
            if what == "add":
                state[args[0]] = block.add(data[args[1]][0])
                order.append([args[0], args[1]])
            elif what == "replace":
                w.require(block.replace(state[args[0]], data[args[1]][0]) == state[args[0]], "a data set that is replaced keeps its identifier")
                next(o for o in order if o[0] == args[0])[1] = args[1]
            elif what == "remove":
                w.require(block.remove(state[args[0]]) is block, "calls can be chained")
                order = [o for o in order if o[0] != args[0]]
            elif order:
                result(w, block, [data[k] for _, k in order], spectrograms)
            else:
                try:
                    block.output()
                except RuntimeError:
                    pass
                else:
                    w.fail("nothing can be concatenated")
        result(w, block, [data[k] for _, k in order], spectrograms)
    return h


HISTORIES = ((("add", "a", 0), ("output",), ("add", "b", 1)),
             (("add", "a", 0), ("add", "b", 1), ("output",), ("replace", "a", 2)),
             (("add", "a", 0), ("add", "b", 1), ("output",), ("replace", "b", 2), ("output",), ("replace", "a", 1)),
             (("add", "a", 0), ("add", "b", 1), ("add", "c", 2), ("output",), ("remove", "a")),
             (("output",), ("add", "a", 0), ("add", "b", 0), ("output",), ("remove", "b")),
             (("add", "a", 0), ("add", "b", 1), ("remove", "a"), ("add", "c", 2), ("output",), ("add", "d", 0)),
             (("add", "a", 0), ("remove", "a"), ("output",), ("add", "b", 1), ("add", "c", 2)))


def result(w, block, data, spectrograms):
    got = block.output()
    if len(data) == 1:
        w.require(got is data[0][0], "a single data set is passed on")
    else:
        compare(w, got, [r for _, r in data], spectrograms)


CASES = [Case(f"signals {' '.join(map(str, c))}", concatenate(signal, False, c), bounds=f"signals of {c} channels", time_s=200)
         for c in ((1, 1), (1, 2), (2, 1), (3, 2), (1, 1, 1), (1, 2, 1), (2, 1, 2))] + \
        [Case(f"spectrograms {' '.join(map(str, c))}", concatenate(spectrogram, True, c), bounds=f"spectrograms of {c} channels", time_s=200) for c in ((1, 1), (1, 2), (2, 1))] + \
        [Case("types", types, backend="B", fallback=None, bounds="2 to 3 signals of 1 to 2 samples"),
         Case("histories of signals", histories(signal, False), backend="B", fallback=None, bounds="up to 4 data sets of 1 to 2 samples"),
         Case("histories of spectrograms", histories(spectrogram, True), backend="B", fallback=None, bounds="up to 4 data sets of 1 to 2 samples")]
