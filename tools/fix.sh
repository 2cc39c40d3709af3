#!/bin/bash
# fix.sh <property> <subject>: builds, tests and commits a repair in /repo and records it
set -e
cd /repo
bash /opt/vp/build.sh >/tmp/fix_build.log 2>&1 || { tail -20 /tmp/fix_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix_out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fix_out.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','pass'):
            if k in x: return set(map(str,x[k]))
        return set(x)
    return set(map(str,x))
miss=names(b)-names(o)
print("baseline",len(names(b)),"missing",sorted(miss)[:5])
assert not miss
P
git add -u include vendors
git commit -qm "fix: $2"
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/known_findings.txt
git status --short | head -3
echo "committed $h"
