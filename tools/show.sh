#!/bin/bash
# show.sh ID group:idx...: replay cases and print what was found
cd ${VROOT:-/verif}
id=$1; shift
for c in "$@"; do
  VERIF_COLLECT=1 bash check.sh $id ${TIER:-quick} --case $c > /dev/null 2>&1
  f=out/$id-${c/:/-}-s${VERIF_SEED:-1}.json
  echo "== $c"; [ -f $f ] && python3 - $f <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print(d.get('msg','')[:300]); print('NOTE',d.get('note','')[:700]); print('INFO',d.get('info','').replace('\\n','\n')[-1800:])
P
done
