#!/bin/sh
# nothing to compile: the code under test is imported from /repo as it is; this only proves the interpreter works
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, scipy, numba, sympy, skimage, matplotlib; import rv.mon, rv.ref, rv.wl"
