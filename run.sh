#!/bin/bash
# run.sh PROPERTY [options]: one check, with everything that could carry state
# from one run to the next in a scratch directory that is removed afterwards.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/dst.XXXXXX") || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/home" "$W/numba" "$W/pyc" "$W/mpl" "$W/scratch"
export HOME="$W/home" NUMBA_CACHE_DIR="${DST_NUMBA_CACHE:-$W/numba}" PYTHONPYCACHEPREFIX="$W/pyc" MPLCONFIGDIR="$W/mpl" DST_SCRATCH="$W/scratch"
export NUMBA_OPT="${DST_NUMBA_OPT:-1}"
export PYTHONHASHSEED="${DST_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen LC_ALL=C.UTF-8
export NUMBA_NUM_THREADS=$(getconf _NPROCESSORS_ONLN) OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
for v in $(env | sed -n 's/^\(CDDM_[A-Z_]*\)=.*/\1/p'); do unset "$v"; done
/opt/venv/bin/python "$here/check.py" "$@"
exit $?
