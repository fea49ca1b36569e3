#!/bin/bash
# add.sh ID "technique" "level note": claim a check, refresh the manifest and commit
cd /verif
[ -n "$2" ] && printf '%s\t%s\t%s\n' "$1" "$2" "$3" >> tools/techniques.tsv
python3 tools/mkprops.py > /dev/null && python3 tools/mkmanifest.py && PYTHONPATH=/repo /opt/venv/bin/python -W ignore tools/mkdesign.py && git add -A && git commit -qm "$1" && echo committed
