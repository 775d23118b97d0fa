#!/bin/bash
# run.sh check C01 | replay FILE : runs against the code in /repo, offline
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -B run.py "$@"
