#!/bin/bash
# run.sh C01 [quick|thorough] [options]: decide one property on /repo's working tree
cd "$(dirname "$0")"
export SPEY_CHECKUPDATE=OFF PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
P=$1; shift
exec /opt/venv/bin/python engine/main.py "$P" "$@"
