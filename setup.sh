#!/bin/bash
# Nothing has to be built: pure Python. Checks that everything is importable.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
MPLCONFIGDIR="$(mktemp -d /tmp/vmon-mpl.XXXXXX)"
export MPLCONFIGDIR
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
mkdir -p evidence replays
PYTHONPATH="$here:${VMON_REPO:-/repo}" /opt/venv/bin/python -W ignore - <<'P'
import glob, importlib, os
import numpy, scipy, matplotlib, qutip, filter_functions, simanneal, qopt
for f in sorted(glob.glob('vmon/*.py')):
    importlib.import_module('vmon.' + os.path.basename(f)[:-3])
print('ok', qopt.__file__)
P
