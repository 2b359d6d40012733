"""What the checks of saving and loading have in common."""
import contextlib
import os
import tempfile

from engine.files import options

LABELS = ("a", "", "a b", "x,y", 'quote"d', "it's", "line\nbreak", "# hash; |", "é\\n", "1.5", "\t", "time")


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix="verif") as d:
        yield d


def forget(w):
    """readers and writers are looked up anew"""
    for kind in ("signal", "spectrum", "spectrogram", "filter"):
        m = w.module(f"sumpf._internal._persistence._{kind}_readers")
        if isinstance(getattr(m, "readers", None), dict):
            m.readers.clear()


def formats(w, cls):
    return getattr(w.sumpf, cls).file_formats


def stored(w, cls, data, name, fmt=None):
    """the data after saving and loading it"""
    with scratch() as d:
        path = os.path.join(d, name)
        r = data.save(path) if fmt is None else data.save(path, getattr(formats(w, cls), fmt))
        return getattr(w.sumpf, cls).load(path)


def value(w, name, negative):
    """a number of a known sign"""
    x = w.number(name)
    w.assume(x > 0)
    return -x if negative else x
