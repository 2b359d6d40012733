"""A stand-in for the JACK-Client package and the JACK server, which calls the callbacks when the harness says so."""
import sys
import threading
import time
import types

import jack

from engine.core import Unsupported


class Partial:
    """an attribute of the original that the stand-in lacks leaves the check undecided"""
    original = None

    def __getattr__(self, name):
        if hasattr(type(self).original, name):
            raise Unsupported(f"{type(self).__name__}.{name} of the JACK stand-in")
        raise AttributeError(f"{type(self).__name__} has no attribute {name}")


class JackError(Exception):
    pass


class CallbackExit(Exception):
    pass


class Blocked(Exception):
    """the calling thread would wait until another one sets the event"""


class Event(Partial):
    original = threading.Event

    def __init__(self):
        self._set = False

    def set(self):
        self._set = True

    def clear(self):
        self._set = False

    def is_set(self):
        return self._set

    def wait(self, timeout=None):
        if not self._set:
            raise Blocked()
        return True


class Port(Partial):
    original = jack.Port

    def __init__(self, client, name, shortname, is_input):
        self._client = client
        self._short = shortname
        self.name = f"{name}:{shortname}"
        self.is_input = is_input
        self.is_output = not is_input
        self.buffer = None

    @property
    def shortname(self):
        return self._short

    def __repr__(self):
        return f"<{self.name}>"


class OwnPort(Port):
    original = jack.OwnPort

    @property
    def connections(self):
        s = self._client.server
        return [o for o, i in s.connections if i is self] if self.is_input else [i for o, i in s.connections if o is self]

    @property
    def number_of_connections(self):
        return len(self.connections)

    def is_connected_to(self, port):
        if isinstance(port, str):
            return any(p.name == port for p in self.connections)
        return any(p is port for p in self.connections)

    def get_array(self):
        return self.buffer

    def connect(self, port):
        self._client.connect(*((port, self) if self.is_input else (self, port)))

    def disconnect(self, other=None):
        s = self._client.server
        s.connections = [c for c in s.connections if self not in c or other is not None and other not in c]

    def unregister(self):
        self.disconnect()
        ports = self._client.inports if self.is_input else self._client.outports
        ports._ports = [p for p in ports._ports if p is not self]


class Ports(Partial):
    original = jack.Ports

    def __init__(self, client, is_input):
        self._client = client
        self._is_input = is_input
        self._ports = []

    def __len__(self):
        return len(self._ports)

    def __iter__(self):
        return iter(list(self._ports))

    def __getitem__(self, i):
        return self._ports[i]

    def register(self, shortname, is_terminal=False, is_physical=False):
        if any(p.shortname == shortname for q in (self._client.inports, self._client.outports) for p in q):
            raise JackError(f"port {shortname} exists")
        p = OwnPort(self._client, self._client.name, shortname, self._is_input)
        self._ports.append(p)
        return p

    def clear(self):
        while self._ports:
            self._ports[0].unregister()


class Server:
    """the ports of other programs and all connections"""

    def __init__(self, samplerate, blocksize):
        self.samplerate = samplerate
        self.blocksize = blocksize
        self.connections = []
        self.clients = []
        other = types.SimpleNamespace(active=True, server=self)
        self.external = [Port(other, "system", "capture_1", False), Port(other, "system", "capture_2", False),
                         Port(other, "system", "playback_1", True), Port(other, "system", "playback_2", True)]

    def connected(self):
        return sorted((o.name, i.name) for o, i in self.connections)

    def module(self):
        def client(name, *args, **kwargs):
            return Client(self, name)
        return stand_in(jack, JackError=JackError, CallbackExit=CallbackExit, Port=Port, OwnPort=OwnPort, Client=client)

    def install(self, modules):
        """replaces the JACK-Client package, the events and the time in the given modules"""
        while installed:
            names, name, value = installed.pop()
            names[name] = value
        unavailable = {n: undecided(f"threading.{n}") for n in ("Condition", "Semaphore", "BoundedSemaphore", "Barrier", "Thread", "Timer") if hasattr(threading, n)}
        new = {id(original): replacement for original, replacement in (
            (jack, self.module()), (threading, stand_in(threading, Event=Event, **unavailable)), (time, stand_in(time, sleep=sleep, time=clock, monotonic=clock, perf_counter=clock)))}
        for original in (jack, threading, time):
            for name, value in vars(new[id(original)]).items():
                if not name.startswith("__") and getattr(original, name, value) is not value:
                    new[id(getattr(original, name))] = value
        for m in modules:
            names = vars(m)
            for name, value in list(names.items()):
                if not name.startswith("__") and id(value) in new:
                    installed.append((names, name, value))
                    names[name] = new[id(value)]


installed = []


def stand_in(original, **replaced):
    m = types.ModuleType(original.__name__)
    m.__dict__.update({k: v for k, v in vars(original).items() if not k.startswith("__")})
    m.__dict__.update(replaced)
    return m


def undecided(name):
    def f(*args, **kwargs):
        raise Unsupported(name)
    return f


def sleep(seconds):
    pass


def clock():
    return 0.0


def sumpf_modules(w):
    modules = list(w.loader.modules.values()) if w.symbolic else list(sys.modules.values())
    return [m for m in modules if isinstance(m, types.ModuleType) and m.__name__.split(".")[0] == "sumpf"]


class Client(Partial):
    original = jack.Client

    def __init__(self, server, name):
        self.server = server
        self.name = name
        self.active = False
        self.inports = Ports(self, True)
        self.outports = Ports(self, False)
        self.callbacks = {}
        server.clients.append(self)

    @property
    def samplerate(self):
        return self.server.samplerate

    @property
    def blocksize(self):
        return self.server.blocksize

    def callback(self, name):
        if name not in self.callbacks:
            raise Unsupported(f"no {name} callback")
        return self.callbacks[name]

    def set_process_callback(self, f):
        self.callbacks["process"] = f

    def set_shutdown_callback(self, f):
        self.callbacks["shutdown"] = f

    def set_samplerate_callback(self, f):
        self.callbacks["samplerate"] = f

    def set_xrun_callback(self, f):
        self.callbacks["xrun"] = f

    def activate(self):
        self.active = True

    def deactivate(self, ignore_errors=True):
        self.active = False
        self.server.connections = [c for c in self.server.connections if not any(self.owns(p) for p in c)]

    def close(self, ignore_errors=True):
        self.deactivate()

    def owns(self, port):
        return port._client is self

    def get_ports(self, name_pattern="", is_audio=False, is_midi=False, is_input=False, is_output=False, is_physical=False, can_monitor=False, is_terminal=False):
        ports = self.server.external + [p for c in self.server.clients for q in (c.inports, c.outports) for p in q]
        return [p for p in ports if (not is_input or p.is_input) and (not is_output or p.is_output)]

    def connect(self, source, destination):
        ports = []
        for p, is_input in ((source, False), (destination, True)):
            if isinstance(p, str):
                found = [q for q in self.get_ports() if q.name == p]
                if not found:
                    raise JackError(f"unknown port {p}")
                p = found[0]
            if p.is_input != is_input or not p._client.active or self.owns(p) and not any(p is q for q in (self.inports if is_input else self.outports)):
                raise JackError("cannot be connected")
            ports.append(p)
        if any(o is ports[0] and i is ports[1] for o, i in self.server.connections):
            raise JackError("connected already")
        self.server.connections.append(tuple(ports))

    # ---- the server's actions
    def process(self, frames):
        try:
            self.callback("process")(frames)
        except CallbackExit:
            self.deactivate()
