#!/bin/bash
# The framework is interpreted: check that the interpreter, the solver and the package are there.
cd "$(dirname "$0")"
mkdir -p evidence/replays
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, autograd, iminuit, z3
print("python", sys.version.split()[0], "z3", z3.get_version_string(), "numpy", numpy.__version__)
PY
