#!/bin/bash
# nothing to compile: check that the interpreter and the code under test load
D=$(dirname "$(readlink -f "$0")")
mkdir -p "$D/evidence" "$D/out"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=$(command -v python3.12 || command -v python3)
cd "$D" && PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D:/repo" "$PY" -W ignore -c 'import mon.core, mon.rargen, mon.srrparse, rescene, resample' && echo ready
