#!/bin/bash
# seed.sh NAME PROP: takes /repo's uncommitted change as planted bug NAME of property PROP; /tmp/seed/NAME.rs is the demonstration,
# /tmp/seed/NAME.json the description. Confirms it and runs the check of PROP (and those in $ALSO) against it.
n=$1; p=$2; d=/verif/seeded/$n
cd /repo || exit 1
git diff --quiet && { echo "no change in /repo"; exit 1; }
mkdir -p $d; git diff > $d/patch.diff
cp /verif/tools/demo/{demo.sh,Cargo.toml.in,Cargo.lock} $d/
cp /tmp/seed/$n.rs $d/main.rs
python3 - "$p" /tmp/seed/$n.json $d/meta.json <<'P'
import json,sys
m=json.load(open(sys.argv[2])); json.dump({"property":sys.argv[1],"needs":m["needs"],"what_it_breaks":m["breaks"]},open(sys.argv[3],"w"),indent=1)
P
bash /opt/vp/build.sh > /tmp/seed/$n.build 2>&1 || { echo "BUILD FAILS"; tail -30 /tmp/seed/$n.build; git checkout -q -- .; rm -rf "$d"; exit 1; }
bash /opt/vp/test.sh /tmp/seed/$n.out.json > /tmp/seed/$n.test 2>&1
python3 - /tmp/seed/$n.out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
import os
def passed(x):
    for k in ('stable','passed','pass'):
        if k in x: return set(x[k] if not isinstance(x[k],dict) else x[k].keys())
    return {k for k,v in x.get('tests',x).items() if v in ('pass','passed','ok',True)}
miss=passed(b)-passed(o)
print('tests: ', 'OK' if not miss else 'BROKEN: '+', '.join(sorted(miss)[:8]), len(passed(b)), len(passed(o)))
P
sh $d/demo.sh > /tmp/seed/$n.bad 2>&1; echo "demo with patch: $? (want nonzero): $(tail -c 300 /tmp/seed/$n.bad | tr '\n' ' ')"
for q in $p $ALSO; do (cd /verif; timeout 900 python3 check.py $q quick > /tmp/seed/$n.$q 2>&1; echo "check $q: exit $? $(grep -A1 -m1 VIOLATION /tmp/seed/$n.$q | tr '\n' ' ' | cut -c1-200)"; tail -1 /tmp/seed/$n.$q | cut -c1-200); done
git checkout -q -- .
sh $d/demo.sh > /tmp/seed/$n.good 2>&1; echo "demo without: $? (want 0) $(tail -c 300 /tmp/seed/$n.good)"
