#!/bin/sh
# sh run.sh check C01 [quick|thorough] | replay FILE | selftest N [ID..]
cd "$(dirname "$0")/.." || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONWARNINGS=ignore
export PYTHONHASHSEED PYTHONDONTWRITEBYTECODE PYTHONPYCACHEPREFIX PYTHONWARNINGS
exec "$PY" -m dst "$@"
