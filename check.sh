#!/bin/bash
# check.sh PROPERTY [--replay FILE | --tier TIER]
cd "$(dirname "$0")" || exit 2
export HOME=/root LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python -W ignore -m dsim.run "$@"
