#!/bin/bash
# Nothing to build: checks parse /repo's source on every run. Verify the tools are there.
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, ".")
from sx.z3load import z3
import numpy, pandas, pydantic
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "pandas", pandas.__version__)
PY
