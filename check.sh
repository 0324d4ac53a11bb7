#!/bin/bash
# check.sh C01 quick|thorough
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -B check.py "$1" --tier "${2:-quick}" "${@:3}"
