#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
export PYTHONPYCACHEPREFIX=$(mktemp -d /tmp/atgpyc.XXXXXX) PYTHONHASHSEED=0 POLARS_MAX_THREADS=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
/opt/venv/bin/python harness/check.py "$@"
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
