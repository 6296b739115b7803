#!/bin/bash
# run.sh <PROPERTY> [quick|thorough] | --replay <file>
cd "$(dirname "$0")" || exit 3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg LC_ALL=C.UTF-8
unset PYTHONPATH PYTHONSTARTUP
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -B vf/runner.py "$@"
