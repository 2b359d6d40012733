#!/bin/bash
# nothing to build: the checks execute /repo's source. This only verifies that the solver and the package can be loaded.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -W ignore -B -c '
import sys
sys.path.insert(0, ".")
from engine import core, runner
core.z3.Solver().check()
for backend in "AB":
    ld, _ = runner.make_loader(backend)
    ld.load("sumpf")
print("ready: z3", core.z3.get_version_string())
'
