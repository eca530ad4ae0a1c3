#!/bin/bash
# usage: tools/seedtest.sh ID [--notests]    validates seeded/ID in a scratch copy of /repo and runs the property's check against it
# (development helper; the registered checks always run against /repo itself)
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed_XXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/r" && cp -a /repo "$W/r/repo"; R=$W/r/repo
mkdir "$W/d" && cp "$S"/* "$W/d/" && rm -f "$W"/d/*.diff "$W"/d/meta.json
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
(cd $R && timeout 300 bash "$W/d/demo.sh" >$W/demo0 2>&1); a=$?
[ $a = 0 ] || { echo "$id: demo fails on the unchanged tree ($a)"; tail -5 $W/demo0; exit 1; }
git -C $R apply "$S/patch.diff" || { echo "$id: does not apply"; exit 1; }
(cd $R && timeout 300 bash "$W/d/demo.sh" >$W/demo1 2>&1); b=$?
[ $b != 0 ] || { echo "$id: demo passes with the patch"; exit 1; }
if [ "$2" != --notests ]; then
  sed "s#/opt/vp/reports#$W/tr#g; s#cd /repo #cd $R #" /opt/vp/test.sh > $W/test.sh
  sed -i 's#^/opt/venv/bin/python /opt/vp/results.py.*##' $W/test.sh
  bash $W/test.sh $W/out.json >$W/test.log 2>&1
  /opt/venv/bin/python - $W/tr <<'PY' || { echo "$id: tests catch it"; exit 1; }
import sys,glob,json,xml.etree.ElementTree as E
ok=set()
for f in glob.glob(sys.argv[1]+'/*.xml'):
    for t in E.parse(f).iter('testcase'):
        if not [c for c in t if c.tag in('failure','error','skipped')]: ok.add(f"{t.get('classname')}::{t.get('name')}")
st=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[s for s in st if s not in ok]
print('stable tests failing:',len(bad),bad[:4]); sys.exit(bool(bad))
PY
fi
MC_REPO=$R "$V/bin/check" $prop >$W/check.log 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$prop " $W/check.log)
echo "$id: property $prop demo 0/$b check exit $c violations $v $( [ $c = 1 ] && [ $v -gt 0 ] && echo CAUGHT || { echo MISSED; tail -3 $W/check.log; })"
