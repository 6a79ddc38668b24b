#!/bin/bash
# run.sh <property>: run the check of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -B -m checks.main "$@"
