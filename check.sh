#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [more options of engine.run]
cd "$(dirname "$0")" || exit 2
p=$1; t=${2:-${VERIF_TIER:-quick}}; shift; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=$PWD
exec /opt/venv/bin/python -c "
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from engine.run import main
main()" "$p" --tier "$t" "$@"
