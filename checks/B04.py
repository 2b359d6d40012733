"""The interface for the JACK Audio Connection Kit plays and records every sample once and keeps its connections."""
from engine.core import Unsupported

from . import jackserver
from .common import *

ASSUMPTIONS = REALS + MODEL + ["the JACK server is replaced by a stand-in that calls the callbacks, keeps the ports and the connections; 1 to 2 channels and ports, 2 recordings of at most 3 blocks",
                               "the callbacks are not interrupted by other threads; connections from this client's own output ports to its own input ports are outside"]


def setup(w, samplerate=48000, blocksize=64):
    """the interface's class with the stand-ins for the server, threads and the time"""
    server = jackserver.Server(samplerate, blocksize)
    w.sumpf.Jack
    server.install(jackserver.sumpf_modules(w))

    def make(*args, **kwargs):
        r = w.sumpf.Jack(*args, **kwargs)
        if len(server.clients) != 1:
            raise Unsupported("the stand-in for the JACK server is not used")
        return r
    return make, server


def blocked(f):
    try:
        f()
    except jackserver.Blocked:
        return True
    return False


def recording(auto, again):
    def h(w):
        c = w.choice("channels", (1, 2))
        k = w.choice("ports", (1, 2))
        n = w.int("length", 1, BIG, (1, 6))
        o = w.int("offset", -BIG, BIG, (-3, 3))
        first = w.int("first_block", 1, BIG, (1, 4))
        later = first if w.choice("blocks", ("same", "different")) == "same" else w.int("later_blocks", 1, BIG, (1, 4))
        limit = 2 if again else 3
        w.assume(n <= first + later * (limit - 1))
        Jack, server = setup(w, samplerate=44100, blocksize=first)
        x = w.array("x", (c, n), lo=-1, hi=1)
        signal = w.sumpf.Signal(channels=x, sampling_rate=44100.0, offset=o, labels=labels_of("x", c))
        ref = Ref(w, x, (), c=c, n=n)
        jack = Jack(name="test", input_signal=signal, input_ports=[f"port{i}" for i in range(k)], auto_deactivate=auto)
        client = server.clients[0]
        results = []
        for run in range(2 if again else 1):
            w.require(jack.start() is jack, "start returns the instance")
            w.require(client.active, "the client is active during a recording")
            buffers = []
            for b in range(limit + 2):
                frames = first if b == 0 else later
                start = 0 if b == 0 else first + later * (b - 1)
                if not client.active:
                    break
                if bool(start < n):
                    w.require(blocked(jack.output), "waits for the end of the recording")
                inputs = [w.array(f"in{run}_{p}_{b}", (frames,), lo=-1, hi=1) for p in range(k)]
                keep = [snap(w, a) for a in inputs]
                outputs = [w.array(f"out{run}_{p}_{b}", (frames,), lo=-1, hi=1) for p in range(c)]
                for port, a in zip(client.inports, inputs):
                    port.buffer = a
                for port, a in zip(client.outports, outputs):
                    port.buffer = a
                client.process(frames)
                buffers.append((start, frames, keep))
                for p in range(c):
                    w.forall((frames,), lambda t, p=p: w.close(w.at(outputs[p], t), w.ite(start + t < n, ref.at(p, start + t), 0.0)), "played samples")
            w.require(not auto or not client.active, "deactivated after the recording")
            w.require(not blocked(jack.output), "the recording ends")
            r = jack.output()
            same_shape(w, r.channels(), (k, n), "recording")
            w.require(w.and_(r.sampling_rate() == 44100.0, r.offset() == o), "axis of the recording")
            w.require(r.labels() == tuple(f"port{i}" for i in range(k)), "labels of the recording")

            def want(p, j, buffers=buffers):
                if not w.symbolic:
                    for start, frames, keep in buffers:
                        if start <= j < start + frames:
                            return keep[p](j - start)
                v = 0.0
                for start, frames, keep in buffers[::-1]:
                    v = w.ite(j < start + frames, keep[p](j - start), v)
                return v
            results.append((r, want))
        for r, want in results:
            w.forall((k, n), lambda p, j, r=r, want=want: w.close(w.at(r.channels(), p, j), cases(w, p, [want(q, j) for q in range(k)])), "recorded samples")
        ref.unchanged("played signal")
    return h


def snap(w, a):
    if isinstance(a, SymArray):
        s = a.snapshot()
        return lambda j: s((j,))
    keep = a.copy()
    return lambda j: keep[j] if 0 <= j < len(keep) else 0.0


def cases(w, p, values):
    if not w.symbolic:
        return values[p]
    r = values[-1]
    for i in range(len(values) - 1):
        r = w.ite(p == i, values[i], r)
    return r


def xruns(w):
    blocksize = w.int("blocksize", 1, BIG)
    Jack, server = setup(w, blocksize=blocksize)
    n = w.int("length", 1, BIG, (1, 6))
    signal = w.sumpf.Signal(channels=w.array("x", (1, n)), sampling_rate=48000.0)
    jack = Jack(input_signal=signal, input_ports=["a"], auto_deactivate=False)
    client = server.clients[0]
    w.require(jack.xruns() == (0, None), "no xruns")
    jack.start()
    position = 0
    if w.choice("when", ("before", "after a block")) != "before":
        w.assume(blocksize < n)
        for port in list(client.inports) + list(client.outports):
            port.buffer = w.array("buffer_" + port.shortname, (blocksize,))
        client.process(blocksize)
        position = blocksize
    for k in range(w.choice("number", (1, 2))):
        delay = w.real(f"delay{k}", 0, 1000000)
        client.callback("xrun")(delay)
        count, x = jack.xruns()
        w.require(count == k + 1, "number of xruns")
        w.require(w.and_(x.start == position, x.stop == position + blocksize), "corrupted samples")
        w.require(w.close(x.delay, delay / 1000000), "delay in seconds")
    rate = w.real("sampling_rate", 1, 200000)
    client.callback("samplerate")(rate)
    w.require(w.close(jack.sampling_rate(), rate), "changed sampling rate")
    client.callback("shutdown")(None, "reason")
    w.require(not blocked(jack.output), "a shutdown ends the recording")


NAMES = (((), ("output_1",), 1), (("a", "b"), ("a", "b"), 2), (("a", "a"), ("a", "output_2"), 2), ((None, "output_1"), ("output_1", "output_2"), 2),
         (("output_2", ""), ("output_2", "output_2_"), 2), (("", ""), ("output_1", "output_2"), 2), (("a",), ("a", "output_2"), 2), (("a", "b", "c"), ("a", "b"), 2),
         (("x", "", "x"), ("x", "output_2", "output_3"), 3), (("output_3", "output_3", "output_3"), ("output_3", "output_2", "output_3_"), 3))


def port_names(w):
    Jack, server = setup(w)
    labels, want, c = w.choice("names", NAMES)
    before = w.choice("previous", NAMES[1:5])
    n = w.int("length", 1, BIG, (1, 4))

    def make(labels, c, name):
        return w.sumpf.Signal(channels=w.array(name, (c, n)), labels=labels)
    how = w.choice("how", ("constructor", "input"))
    if how == "constructor":
        jack = Jack(name="test", input_signal=make(labels, c, "x"))
    else:
        jack = Jack(name="test", input_signal=make(before[0], before[2], "before"))
        jack.input(make(labels, c, "x"))
    w.require(tuple(p.shortname for p in server.clients[0].outports) == want, "names of the output ports")
    w.require(jack.input_ports() == [], "no input ports")


# c connects output and input, x disconnects an output in the server, + adds a port, - removes it by the specifier, a activates, d deactivates, i sets a signal with as many channels, r plays and records,
# A and D enable and disable the automatic deactivation; the tuples are the resulting connections while the client is active
OUT0, OUT1, IN0, IN1 = "test:x0", "test:x1", "test:in0", "test:in1"
CAP, CAP2, PLAY, PLAY2 = "system:capture_1", "system:capture_2", "system:playback_1", "system:playback_2"
HISTORIES = ((False, ("c", 0, PLAY), [(OUT0, PLAY)]),
             (False, ("c", "x1", PLAY), ("c", CAP, "in0"), [(OUT1, PLAY), (CAP, IN0)]),
             (False, ("c", OUT0, PLAY), ("c", OUT0, PLAY), [(OUT0, PLAY)]),
             (False, ("c", 0, PLAY), ("d",), [], ("a",), [(OUT0, PLAY)], ("d",), ("d",), ("a",), [(OUT0, PLAY)]),
             (False, ("d",), ("c", 0, PLAY), ("c", CAP, 1), [], ("a",), [(OUT0, PLAY), (CAP, IN1)], ("a",), [(OUT0, PLAY), (CAP, IN1)]),
             (False, ("c", 0, PLAY), ("c", 1, PLAY2), ("c", CAP, 0), ("i",), [("test:y0", PLAY), ("test:y1", PLAY2), (CAP, IN0)]),
             (False, ("c", 0, PLAY), ("d",), ("c", CAP, 0), ("i",), [], ("a",), [("test:y0", PLAY), (CAP, IN0)]),
             (False, ("d",), ("c", CAP, 1), ("-", 0), ("a",), [(CAP, IN1)]),
             (False, ("d",), ("c", CAP, 1), ("c", CAP2, 0), ("-", "in0"), ("a",), [(CAP, IN1)]),
             (False, ("d",), ("c", CAP, 0), ("c", CAP2, "in1"), ("-", IN1), ("a",), [(CAP, IN0)]),
             (False, ("d",), ("c", CAP, IN0), ("c", CAP2, IN1), ("-", 1), ("+", "in2"), ("c", CAP2, 1), ("a",), [(CAP, IN0), (CAP2, "test:in2")]),
             (False, ("c", CAP, 0), ("c", CAP, 1), ("-", 0), [(CAP, IN1)], ("d",), ("a",), [(CAP, IN1)]),
             (True, ("c", 0, PLAY), ("c", CAP, 0), [], ("r",), [], ("a",), [(OUT0, PLAY), (CAP, IN0)]),
             (True, ("c", 0, PLAY), ("r",), ("c", 1, PLAY), ("r",), [], ("a",), [(OUT0, PLAY), (OUT1, PLAY)]),
             (True, ("c", 0, PLAY), ("r",), ("i",), ("r",), ("i",), ("D",), ("a",), [(OUT0, PLAY)]),
             (True, ("D",), ("a",), ("c", 0, PLAY), ("A",), [], ("D",), ("a",), [(OUT0, PLAY)], ("r",), [(OUT0, PLAY)]),
             (False, ("c", 1, PLAY), ("c", 0, PLAY2), ("1",), [("test:z0", PLAY2)], ("i",), [("test:y0", PLAY2)]),
             (False, ("c", 1, PLAY), ("c", 0, PLAY2), ("d",), ("1",), ("a",), [("test:z0", PLAY2)]),
             (False, ("d",), ("c", 0, PLAY), ("a",), ("x", OUT0), [], ("d",), ("a",), []),
             (True, ("c", 0, PLAY), ("c", CAP, 1), ("r",), ("a",), ("x", OUT0), ("r",), ("a",), [(CAP, IN1)]),
             (False, ("-", "in1"), ("-", "test:in0"), ("+", "b"), ("c", CAP, 0), [(CAP, "test:b")]))


def connections(w):
    auto, *steps = w.choice("history", HISTORIES)
    Jack, server = setup(w)
    n = w.int("length", 1, BIG, (1, 4))
    make = lambda name, c=2: w.sumpf.Signal(channels=w.array(f"{name}_{len(made)}", (c, n)), labels=labels_of(name, c))
    made = []
    current = "x"
    jack = Jack(name="test", input_signal=make("x"), input_ports=["in0", "in1"], auto_deactivate=auto)
    client = server.clients[0]
    for s in steps:
        if isinstance(s, list):
            w.require(server.connected() == sorted(s), f"connections: {server.connected()}")
        elif s[0] == "c":
            jack.connect(s[1], s[2])
        elif s[0] == "x":
            server.connections = [(o, i) for o, i in server.connections if o.name != s[1]]
        elif s[0] == "+":
            jack.add_input_port(s[1])
        elif s[0] == "-":
            jack.remove_input_port(s[1])
        elif s[0] == "a":
            jack.activate()
        elif s[0] == "d":
            jack.deactivate()
        elif s[0] in "AD":
            jack.auto_deactivate(s[0] == "A")
        elif s[0] in "i1":
            made.append(s[0])
            current = "z" if s[0] == "1" else "y" if current != "y" else "x"
            jack.input(make(current, 1 if s[0] == "1" else 2))
        elif s[0] == "r":
            jack.start()
            made.append(s[0])
            for k in range(3):
                if client.active:
                    for port in list(client.inports) + list(client.outports):
                        port.buffer = w.array(f"buffer_{len(made)}_{port.shortname}_{k}", (n,))
                    client.process(n)
            w.require(not blocked(jack.output), "the recording ends")
    w.require([p.shortname for p in client.inports] == jack.input_ports(), "input ports")


CASES = [Case(f"recording{' and deactivating' if auto else ''}{' twice' if again else ''}", recording(auto, again), fallback=None, bounds="lengths and block sizes up to 10^6, up to 3 blocks", time_s=300)
         for auto in (True, False) for again in (False, True)]
CASES += [Case("xruns", xruns, fallback=None, bounds="lengths up to 10^6"), Case("port names", port_names, fallback=None, bounds="lengths up to 10^6"),
          Case("connections", connections, fallback=None, bounds="lengths up to 10^6, the listed histories")]
