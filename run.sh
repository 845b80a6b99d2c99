#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [args]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-quick}"; shift; [ $# -gt 0 ] && shift
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
mplc="$(mktemp -d)"; trap 'rm -rf "$mplc"' EXIT
export MPLCONFIGDIR="$mplc" JOBLIB_TEMP_FOLDER="$mplc"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$here"
cd "$here" || exit 3
/opt/venv/bin/python "$here/checks/$id.py" --tier "$tier" "$@"
