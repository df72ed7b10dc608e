#!/bin/sh
# Nothing to build; make sure that the interpreter, the solver and the package under test are there.
cd "$(dirname "$0")" && MPLBACKEND=Agg exec /opt/venv/bin/python -B -c '
import sys
sys.path.insert(0, ".")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from sx import harness, load
harness.real_pkg()
print("z3", z3.get_version_string())'
