#!/bin/bash
# nothing to build: checks import /repo/src directly. Fail early if an interpreter is missing.
set -e
python3-vt -c "import z3"
/opt/venv/bin/python -c "import numpy, scipy, numba, sklearn"
echo ok
