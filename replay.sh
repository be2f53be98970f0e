#!/bin/bash
# usage: replay.sh FILE -- run a recorded counterexample on the real code
f=$(readlink -f "$1"); cd "$(dirname "$0")" || exit 2
d=$(mktemp -d); chmod 777 "$d"
export PYTHONDONTWRITEBYTECODE=1 NUMBA_ENABLE_CUDASIM=1 PYTHONPATH=$PWD HOME=$d NUMBA_CACHE_DIR=$d/nb
/opt/venv/bin/python -m engine.replay "$d" "$f"; rc=$?
rm -rf "$d"; exit $rc
