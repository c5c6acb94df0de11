#!/bin/bash
# fix.sh PROP "message" "what failed"   -- commits all changes in /repo
set -e
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1 || { tail -20 /tmp/o.log; exit 1; }
python3 - <<'P' || exit 1
import json
d=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(d['passed'])
print(len(d['passed']),'passed; missing',miss)
raise SystemExit(1 if miss or d['failed'] else 0)
P
cd /repo
git diff --stat
git commit -qam "fix: $2"
c=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $c $3" >> /verif/known-findings.txt
tail -1 /verif/known-findings.txt
