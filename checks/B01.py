"""Merging puts the channels of all data sets in one, in the order of the mode, without changing or moving them."""
import types

from .common import *
from .filters import *

ASSUMPTIONS = REALS + MODEL + ["2 to 4 data sets of 0 to 3 channels, any lengths and offsets up to 10^6"]


def order(counts, mode):
    """(data set, channel) for each channel of the result"""
    if mode == "FIRST_DATASET_FIRST":
        return [(d, c) for d, n in enumerate(counts) for c in range(n)]
    return [(d, c) for c in range(max(counts, default=0)) for d, n in enumerate(counts) if c < n]


def compare(w, got, kind, data, mode):
    w.require(isinstance(got, getattr(w.sumpf, kind)), "type")
    refs = [r for _, r in data]
    places = order([r.c for r in refs], mode)
    w.require(got.labels() == tuple(refs[d].labels[c] for d, c in places), "labels")
    w.require(len(got) == len(places), "number of channels")
    if kind == "Filter":
        for tf, (d, c) in zip(got.transfer_functions(), places):
            w.require(tf is refs[d].terms[c], "transfer functions")
        return
    if kind != "Spectrum":
        first = w.min(*(r.o for r in refs))
        length = w.max(*(r.o + r.n for r in refs)) - first
        w.require(got.offset() == first, "starts with the first data set")
        w.require(got.sampling_rate() == refs[0].sr, "sampling rate")
    else:
        first, length = 0, w.max(*(r.n for r in refs))
    if kind != "Signal":
        w.require(got.resolution() == refs[0].resolution, "resolution")
    shape = (len(places),) + ((w.max(*(r.f for r in refs)),) if kind == "Spectrogram" else ()) + (length,)
    same_shape(w, got.channels(), shape, "merged")
    for k, (d, c) in enumerate(places):
        r = refs[d]
        o = first - (0 if kind == "Spectrum" else r.o)

        def check(*idx, k=k, c=c, r=r, o=o):
            t = idx[-1] + o
            inside = w.and_(t >= 0, t < r.n)
            if len(idx) == 2:
                inside = w.and_(inside, idx[0] < r.f)
            return w.same(w.at(got.channels(), k, *idx), w.ite(inside, lambda: r.at(c, *idx[:-1], t), 0.0))
        w.forall(shape[1:], check, f"channel {k}")
    for i, r in enumerate(refs):
        r.unchanged(f"data set {i}")


MAKE = {"Signal": signal, "Spectrum": spectrum, "Spectrogram": spectrogram}
MODES = ("FIRST_DATASET_FIRST", "FIRST_CHANNELS_FIRST")


def filter_(w, name, channels):
    F = w.sumpf.Filter
    terms = tuple(F.Polynomial((w.real(f"{name}_{i}"), 1.0)) for i in range(channels))
    labels = labels_of(name, channels)
    return F(terms, labels=labels), types.SimpleNamespace(labels=labels, c=channels, terms=terms)


def inputs(w, kind, counts, **kwargs):
    if kind == "Filter":
        return [filter_(w, f"d{i}", c) for i, c in enumerate(counts)]
    return [MAKE[kind](w, f"d{i}", channels=c, small_n=2, **kwargs) for i, c in enumerate(counts)]


def result(w, block, kind, data, mode):
    got = block.output()
    if len(data) == 1:
        w.require(got is data[0][0], "a single data set is passed on")
    else:
        compare(w, got, kind, data, mode)


def merge(kind, counts):
    def h(w):
        mode = w.choice("mode", MODES)
        data = inputs(w, kind, w.choice("channels", counts))
        block = w.sumpf.Merge([d for d, _ in data], getattr(w.sumpf.Merge.modes, mode))
        result(w, block, kind, data, mode)
    return h


def histories(kind):
    """data sets are added, replaced and removed and the mode is changed in between"""
    def h(w):
        kwargs = {} if kind == "Filter" else dict(nmax=2)
        if kind in ("Signal", "Spectrogram"):
            kwargs["omax"] = 1
        if kind == "Spectrogram":
            kwargs.update(fmax=1)
        data = inputs(w, kind, (2, 1, 2), **kwargs)
        block = w.sumpf.Merge()
        state, order_, mode = {}, [], MODES[0]
        for what, *args in w.choice("steps", HISTORIES):
            if what == "add":
                state[args[0]] = block.add(data[args[1]][0])
                order_.append([args[0], args[1]])
            elif what == "replace":
                w.require(block.replace(state[args[0]], data[args[1]][0]) == state[args[0]], "a data set that is replaced keeps its identifier")
                next(o for o in order_ if o[0] == args[0])[1] = args[1]
            elif what == "remove":
                w.require(block.remove(state[args[0]]) is block, "calls can be chained")
                order_ = [o for o in order_ if o[0] != args[0]]
            elif what == "mode":
                mode = MODES[args[0]]
                w.require(block.set_mode(getattr(w.sumpf.Merge.modes, mode)) is block, "calls can be chained")
            elif order_:
                result(w, block, kind, [data[k] for _, k in order_], mode)
            else:
                try:
                    block.output()
                except RuntimeError:
                    pass
                else:
                    w.fail("nothing can be merged")
        result(w, block, kind, [data[k] for _, k in order_], mode)
    return h


HISTORIES = ((("add", "a", 0), ("output",), ("add", "b", 1), ("output",), ("mode", 1)),
             (("add", "a", 0), ("add", "b", 1), ("mode", 1), ("output",), ("replace", "a", 2), ("output",), ("mode", 0)),
             (("add", "a", 0), ("add", "b", 1), ("output",), ("replace", "b", 2), ("output",), ("replace", "a", 1)),
             (("mode", 1), ("add", "a", 0), ("add", "b", 1), ("add", "c", 2), ("output",), ("remove", "a")),
             (("output",), ("add", "a", 0), ("add", "b", 0), ("output",), ("remove", "b")),
             (("add", "a", 0), ("add", "b", 1), ("remove", "a"), ("add", "c", 2), ("output",), ("mode", 1), ("add", "d", 0)),
             (("add", "a", 0), ("remove", "a"), ("output",), ("add", "b", 1), ("mode", 1), ("add", "c", 2)))
TWO = ((1, 1), (1, 3), (3, 1), (2, 2), (0, 2), (2, 0), (0, 0))
THREE = ((1, 1, 1), (2, 1, 3), (1, 3, 2), (3, 2, 1), (0, 2, 1), (2, 0, 1), (1, 2, 0), (2, 3, 2))
FOUR = ((2, 1, 2, 1), (1, 2, 3, 1), (3, 0, 1, 2), (1, 1, 2, 3), (2, 3, 1, 3))

CASES = [Case(f"two {k}", merge(k, TWO), bounds="2 data sets of 0 to 3 channels", time_s=200) for k in ("Signal", "Spectrum", "Spectrogram")] + \
        [Case(f"three {k}", merge(k, THREE), bounds="3 data sets of 0 to 3 channels", time_s=200) for k in ("Signal", "Spectrum")] + \
        [Case("four Spectrum", merge("Spectrum", FOUR), bounds="4 data sets of 0 to 3 channels", time_s=200)] + \
        [Case("Filter", merge("Filter", TWO + THREE + FOUR), backend="B", fallback=None, bounds="2 to 4 filters of 0 to 3 channels", time_s=200)] + \
        [Case(f"histories {k}", histories(k), backend="B", fallback=None, bounds="up to 4 data sets of 1 to 2 channels and samples", time_s=300) for k in ("Signal", "Spectrum", "Spectrogram", "Filter")]
