#!/bin/bash
# fix.sh PROP "what failed" "commit subject": run the stable tests, commit /repo, record the fix
set -e
cd /repo
bash /verif/tools/rtest.sh | tee /tmp/fix.out
grep -q "missing \[\]" /tmp/fix.out
git diff --stat
git commit -qam "fix: $3"
h=$(git rev-parse --short HEAD)
for p in $1; do echo "fixed: property=$p $h $2" >> /verif/known_findings.txt; done
git -C /repo status --short
