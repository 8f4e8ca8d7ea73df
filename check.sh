#!/bin/bash
# usage: check.sh <property> [--replay FILE]
# Runs one property check against the current working tree of /repo.
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMBA_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 NUMEXPR_NUM_THREADS=1
[ -d /opt/venv/mplconfig ] && export MPLCONFIGDIR=/opt/venv/mplconfig
export PYTHONPATH="${CBV_REPO:-/repo}:$PWD"
exec /opt/venv/bin/python -W ignore -m cbv "$@"
