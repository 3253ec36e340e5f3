#!/bin/bash
# usage: run.sh <property> <quick|thorough> [--replay file]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python -B lib/run.py "$@"
