#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [options]     run one check on /repo's working tree
D=$(dirname "$(readlink -f "$0")")
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; [ $# -gt 0 ] && shift
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3.12 || command -v python3)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC
unset PYTHONPATH
exec "$PY" -W ignore "$D/mon/run.py" "$P" --tier "$T" "$@"
