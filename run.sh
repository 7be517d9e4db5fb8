#!/bin/bash
# decide one property against /repo's current tree
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore -m pyvc.check "$@"
