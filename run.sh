#!/bin/bash
# Usage: run.sh <PROPERTY> [--replay FILE]     Runs one check against /repo's working tree.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PATH=/opt/pypyvenv/bin:/usr/bin:/bin
export PYTHONPATH="${KLANG_REPO:-/repo}:$here/lib"
export KLANG_REPO="${KLANG_REPO:-/repo}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export PYNPUT_BACKEND=dummy MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export MPLCONFIGDIR="$here/.work/mpl"
mkdir -p "$here/.work/mpl" "$here/evidence" "$here/replays"
unset TMPDIR
exec /opt/pypyvenv/bin/pypy3 "$here/lib/runner.py" "$@"
