#!/bin/bash
# check.sh Cnn [quick|thorough] [--replay FILE]: run the monitors of one property
# against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}"
exec /opt/venv/bin/python harness/main.py "$@"
