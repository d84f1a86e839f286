#!/bin/bash
# check.sh <ID> [--replay FILE] [--tier quick|thorough] [--seed N]: runs the monitors of one property against /repo
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore TQDM_DISABLE=1
unset PYTHONPATH
exec /opt/venv/bin/python -m mon "$@"
