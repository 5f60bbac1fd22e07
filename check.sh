#!/bin/sh
# usage: check.sh PROPERTY [options of pbt/run.py]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -I pbt/run.py "$@"
