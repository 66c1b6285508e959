#!/bin/bash
# usage: run_check.sh <property> [--tier quick|thorough] [--seed N]
#        [--replay file] [--only workload] [--jobs N]
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VMON_REPO="${VMON_REPO:-/repo}"
export PYTHONPATH="$here:$VMON_REPO"
export MPLCONFIGDIR="$(mktemp -d /tmp/vmon-mpl.XXXXXX)"
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -W ignore -m vmon.core "$@"
