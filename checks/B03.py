"""Blocks in a processing chain deliver the results for their current inputs."""
import connectors

from . import B01, B02
from .common import *

ASSUMPTIONS = REALS + MODEL + ["chains of up to 3 sources, a block and a sink; up to 8 changes; data sets of 1 to 2 channels and samples"]


class Source:
    def __init__(self, value):
        self.__value = value

    @connectors.Output()
    def output(self):
        return self.__value

    @connectors.Input("output")
    def set(self, value):
        self.__value = value
        return self


class Sink:
    def __init__(self):
        self.__value = None

    @connectors.Input("value")
    def set(self, value):
        self.__value = value
        return self

    @connectors.Output()
    def value(self):
        return self.__value


# + connects a source, - disconnects it, s gives it another data set, r requests the result, d requests it from the block,
# m sets the mode, M lets a source give the mode, n gives another mode to this source, x gives an empty chain
HISTORIES = (("+0", "r", "+1", "r", "s00", "r"), ("+0", "+1", "r", "-0", "r", "+0", "r"), ("+0", "+1", "+2", "r", "-1", "r", "s22", "r"),
             ("+0", "+1", "r", "m1", "r", "m0", "d"), ("m1", "+0", "+1", "r", "s12", "r", "d"), ("M", "+0", "+1", "r", "n1", "r", "n0", "d", "r"),
             ("+0", "+1", "d", "s02", "d", "s10", "r"), ("+0", "r", "s01", "r", "+1", "r", "s12", "d"), ("+1", "+0", "+2", "r", "s12", "s20", "r", "-0", "d"),
             ("a1", "+0", "r", "s02", "r"), ("+0", "a1", "r", "p2", "r", "q", "r"))


def chain(block, kind):
    merge = block == "Merge"

    def h(w):
        kwargs = dict(nmin=2, nmax=2)
        if kind != "Spectrum":
            kwargs["omax"] = 1
        if kind == "Spectrogram":
            kwargs["fmax"] = 1
        if kind == "Filter":
            kwargs = {}
        data = B01.inputs(w, kind, (2, 1, 2), **kwargs)
        steps = w.choice("steps", tuple(s for s in HISTORIES if merge or not any(x[0] in "mMn" for x in s)))
        sources = [Source(d) for d, _ in data]
        current = [0, 1, 2]
        b = getattr(w.sumpf, block)()
        modes = None if not merge else tuple(getattr(b.modes, m) for m in B01.MODES)
        mode = 0
        mode_source = Source(modes[0]) if merge else None
        sink = Sink()
        sink.set.connect(b.output)
        # the inputs of the block: the number of a source or the name and the data set of an input, that was added directly
        inputs = []
        added = None
        for step in steps:
            what, args = step[0], tuple(int(x) for x in step[1:])
            if what == "+":
                b.add.connect(sources[args[0]].output)
                inputs.append(args[0])
            elif what == "-":
                b.add.disconnect(sources[args[0]].output)
                inputs.remove(args[0])
            elif what == "s":
                sources[args[0]].set(data[args[1]][0])
                current[args[0]] = args[1]
            elif what == "a":
                added = b.add(data[args[0]][0])
                inputs.append("added")
                extra = args[0]
            elif what == "p":
                b.replace(added, data[args[0]][0])
                extra = args[0]
            elif what == "q":
                b.remove(added)
                inputs.remove("added")
            elif what == "m":
                b.set_mode(modes[args[0]])
                mode = args[0]
            elif what == "M":
                b.set_mode.connect(mode_source.output)
                mode = 0
            elif what == "n":
                mode_source.set(modes[args[0]])
                mode = args[0]
            else:
                got = sink.value() if what == "r" else b.output()
                used = [data[extra if i == "added" else current[i]] for i in inputs]
                if len(used) == 1:
                    w.require(got is used[0][0], "a single data set is passed on")
                elif merge:
                    B01.compare(w, got, kind, used, B01.MODES[mode])
                else:
                    B02.compare(w, got, [r for _, r in used], kind == "Spectrogram")
    return h


CASES = [Case(f"{b} {k}", chain(b, k), backend="B", fallback=None, bounds="2 to 3 data sets of 1 to 2 channels and samples", time_s=200)
         for b, ks in (("Merge", ("Signal", "Spectrum", "Spectrogram", "Filter")), ("Concatenate", ("Signal", "Spectrogram"))) for k in ks]
