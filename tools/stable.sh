#!/bin/bash
# Rebuilds /repo (or a copy of it) and reports stable tests that do not pass.
R=${1:-/repo}
d=$(mktemp -d); trap 'rm -rf -- "$d"' EXIT
for f in env build test; do sed "s#cd /repo#cd $R#; s#/opt/vp/env.sh#$d/env.sh#; s#/opt/vp/logs#$d/logs#" /opt/vp/$f.sh > $d/$f.sh; done
bash $d/build.sh >$d/build.log 2>&1 || { tail -20 $d/build.log; exit 1; }
NO_COLOR=1 TERM=dumb bash $d/test.sh $d/out.json >$d/test.log 2>&1
D=$d python3 - <<'P'
import json, os
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(os.environ['D'] + '/out.json'))
lost=sorted(set(b['stable'])-set(o['passed']))
print(len(b['stable']),"stable;",len(lost),"lost")
for l in lost[:30]: print("  LOST",l)
P
