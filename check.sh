#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's current tree
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python check.py --property "$1" --tier "${2:-${VERIF_TIER:-quick}}"
