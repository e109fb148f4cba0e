#!/bin/bash
# bash run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--facet NAME] ...
# Runs one property check of /verif against /repo's current working tree
# (VERIF_REPO=/some/copy points it at a scratch copy while developing).
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8}
export TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1 MPLBACKEND=Agg
unset PYTHONPATH PYTHONSTARTUP NUMBA_DISABLE_JIT
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/vbtcheck.XXXXXX") || exit 3
trap 'rm -rf "$SCRATCH"' EXIT
trap 'exit 3' TERM INT
# Numba's on-disk cache does not notice changed callees in other files, and stale
# bytecode must never be picked up: both live in a scratch folder of this run only.
# TMPDIR moves every temporary file of the code under test there as well.
mkdir -p "$SCRATCH/tmp" "$SCRATCH/cwd"
export NUMBA_CACHE_DIR=$SCRATCH/numba MPLCONFIGDIR=$SCRATCH/mpl PYTHONPYCACHEPREFIX=$SCRATCH/pyc
export HYPOTHESIS_STORAGE_DIRECTORY=$SCRATCH/hyp TMPDIR=$SCRATCH/tmp
export VBTCHECK_SCRATCH=$SCRATCH
cd "$SCRATCH/cwd" || exit 3
python -W ignore "$HERE/vbtcheck/main.py" "$@" &
CHILD=$!
wait $CHILD
RC=$?
exit $RC
