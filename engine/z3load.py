"""Loads only the z3 package of the verification virtualenv into the interpreter that runs SuMPF."""
import importlib.util
import os
import sys

_CANDIDATES = ("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",)


def _load():
    try:
        import z3  # noqa
        return z3
    except ImportError:
        pass
    for d in _CANDIDATES:
        init = os.path.join(d, "__init__.py")
        if os.path.exists(init):
            spec = importlib.util.spec_from_file_location("z3", init, submodule_search_locations=[d])
            m = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = m
            spec.loader.exec_module(m)
            return m
    raise ImportError("z3 was not found")


z3 = _load()
