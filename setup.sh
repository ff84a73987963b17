#!/bin/bash
# Nothing to build: the checks are Python and import asta from /repo's working tree.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
import hypothesis, numpy, sympy, oxentiel, toml
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__, "sympy", sympy.__version__)
PY
mkdir -p evidence replays
