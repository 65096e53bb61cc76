#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE]
# Runs one check against the working tree of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
REPO="${VMC_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$REPO:$here:$here/lib"
export VMC_REPO="$REPO"
# never trust byte code left behind by another tree
find "$REPO/gravity_toolkit" -name '*.pyc' -delete 2>/dev/null
cd "$here" || exit 1
exec /opt/venv/bin/python "$here/lib/mc.py" "$@"
