#!/bin/bash
# tools/tryseed.sh ID [no]: confirm a seeded change (tests pass, demo fails only with it) and run its property's check
cd /verif
for id in "$@"; do
  d=seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  s=$(mktemp -d); cp $d/* $s/; rm -f $s/*.diff $s/meta.json
  (cd /repo && timeout 300 bash $s/demo.sh >$s/out0 2>&1); r0=$?
  git -C /repo apply $PWD/$d/patch.diff || exit 1
  trap 'git -C /repo checkout -q -- .' EXIT
  bash /opt/vp/build.sh >/dev/null 2>&1
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
names=b if isinstance(b,list) else b.get('stable') or b.get('tests') or b.get('passed')
p=o.get('passed') if isinstance(o,dict) else o
print('tests ok' if set(names)<=set(p) else 'TESTS FAIL')
P
  (cd /repo && timeout 300 bash $s/demo.sh >$s/out1 2>&1); r1=$?
  t0=$(date +%s)
  ./check $prop quick >$s/check 2>&1; rc=$?
  t1=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $prop demo clean=$r0 patched=$r1 check rc=$rc ($((t1-t0))s) $(grep -m1 VIOLATION $s/check)"
  [ $r0 = 0 ] || cat $s/out0
  [ $r1 != 0 ] || cat $s/out1
  [ $rc = 1 ] || tail -15 $s/check
  rm -rf $s
done
bash /opt/vp/build.sh >/dev/null 2>&1
