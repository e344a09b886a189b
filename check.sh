#!/bin/bash
# bash check.sh <PROPERTY> [quick|thorough]   decide one property
# bash check.sh replay <file>                 run one recorded case again
cd "$(dirname "$0")" || exit 2
WORK=$(mktemp -d /tmp/vpcheck_XXXXXX) || exit 2
trap 'rm -rf "$WORK"' EXIT
export TMPDIR=$WORK NUMBA_CACHE_DIR=$WORK/numba MPLCONFIGDIR=$WORK/mpl HOME=$WORK
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg COLUMNS=200
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset JAVA_TOOL_OPTIONS
[ -n "${2:-}" ] && [ "$1" != replay ] && export VERIF_TIER=$2
/opt/venv/bin/python harness/run.py "$@"
rc=$?
exit $rc
