#!/bin/bash
# nothing to build: check that the interpreter, z3 and the engine load
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
exec /opt/venv/bin/python -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, scipy, numba
from engine import sym, snp, shims, loader, vfs, harness, registry, run
print('z3', z3.get_version_string())"
