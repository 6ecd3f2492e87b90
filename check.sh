#!/bin/sh
# usage: ./check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python harness/core.py "$@"
