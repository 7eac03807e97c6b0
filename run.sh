#!/bin/bash
# run.sh Cxx [--replay FILE]   decide one property on /repo's working tree (tier from VERIF_TIER, default quick)
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MKL_NUM_THREADS=1
unset SPICE
T=$(mktemp -d /tmp/pyqlaw-mc.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
export VERIF_SCRATCH="$T" MPLCONFIGDIR="$T/mpl"
mkdir "$T/mpl"
[ -d /opt/vp/mplconfig ] && cp -r /opt/vp/mplconfig/. "$T/mpl/" 2>/dev/null
/opt/venv/bin/python -W ignore -m mc.core "$@"
