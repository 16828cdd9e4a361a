#!/bin/bash
# Builds the solver and the harness from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
python3-vt - <<'P'
import sys
sys.path.insert(0, 'checks')
from lib import build, solver
solver.ensure()
build.build()
P
