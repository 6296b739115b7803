#!/bin/bash
# nothing to build: check that the interpreter, hypothesis and the reference algebra are usable
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -B vf/selftest.py
