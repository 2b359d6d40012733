#!/usr/bin/env -S /opt/venv/bin/python -W ignore
"""run.py PROPERTY [--tier quick|thorough] [--case NAME]... [-v] | run.py --replay FILE"""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMEXPR_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")

from engine import runner  # noqa: E402


def main():
    args = sys.argv[1:]
    if args and args[0] == "--replay":
        return runner.replay(args[1])
    pid = args[0]
    tier = None
    only = None
    verbose = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--case":
            only = (only or []) + [args[i + 1]]
            i += 1
        elif args[i] == "-v":
            verbose = True
        i += 1
    return runner.main(pid, tier, only, verbose)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
