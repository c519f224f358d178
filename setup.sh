#!/bin/bash
# Nothing to build: the verifier is Python and runs from the committed files. Smoke test only.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
if [ -f /opt/vp/support/env.sh ]; then . /opt/vp/support/env.sh; fi
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from dv import core
import z3
x = z3.Int('x'); s = z3.Solver(); s.add(x > x); assert s.check() == z3.unsat
print('z3', z3.get_version_string())"
