#!/bin/bash
# usage: run.sh PROPERTY [tier] [--replay FILE]   (tier defaults to $VERIF_TIER or quick)
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export PYTHONPATH="$here:${MC_REPO:-/repo}"
exec /opt/venv/bin/python -B -W ignore -m mc.main "$@"
