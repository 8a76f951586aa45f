#!/bin/bash
# usage: check.sh C01 [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one check against /repo's working tree (OTFMON_REPO overrides it while developing).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg HOME="${HOME:-/root}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
unset PYTHONPATH
exec /opt/venv/bin/python -B -m otfmon.runner "$@"
