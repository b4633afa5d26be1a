#!/bin/bash
# check.sh PROP [args]: decide one property on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONPATH PYTHONHOME
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export XDG_CACHE_HOME="$scratch/cache" MPLCONFIGDIR="$scratch/mpl" DFS_DATA_DIR="$scratch/data" TMPDIR="$scratch"
mkdir -p "$XDG_CACHE_HOME" "$MPLCONFIGDIR" "$DFS_DATA_DIR"
cd "$here" && /opt/venv/bin/python -W ignore -m sx.run "$@"
