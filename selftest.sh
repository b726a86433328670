#!/bin/sh
# setup: nothing to build; checks that the interpreters and the solver are there
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/veriftools/pyvenv/bin/python -c 'import z3; s = z3.Solver(); x = z3.BitVec("x", 8); s.add(x * 2 == 6); assert s.check() == z3.sat'
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import pyown'
echo ready
