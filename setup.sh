#!/bin/bash
# Pure Python on both sides: nothing to build. Checks that the interpreter,
# its packages and the code under test can be used.
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here"
chmod +x check
mkdir -p evidence replays
PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg /opt/venv/bin/python - <<'P'
import importlib, numpy, scipy
from mc import impl, menu
n = 0
for i in range(1, 23):
    m = importlib.import_module('mc.checks.c%02d' % i)
    for t in ('quick', 'thorough'):
        n += len(m.spaces(t))
print('setup: %d state spaces in 22 checks' % n)
P
