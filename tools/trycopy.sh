#!/bin/bash
# tools/trycopy.sh ID...: like tryseed.sh in a scratch copy of /repo and /verif
for id in "$@"; do
  w=$(mktemp -d /tmp/tryXXXXXX)
  git clone -q /repo $w/r; mkdir $w/v; (cd /verif && cp -a check checks vt tools known_findings.json MANIFEST.json properties.jsonl $w/v/)
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  mkdir $w/s; cp $d/* $w/s/; rm -f $w/s/*.diff $w/s/meta.json
  export PYTHONPATH=$w/r
  (cd $w/r && timeout 300 bash $w/s/demo.sh >$w/out0 2>&1); r0=$?
  git -C $w/r apply $d/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  (cd $w/r && /opt/venv/bin/python -m pytest -q -p no:cacheprovider >$w/tests 2>&1); rt=$?
  (cd $w/r && timeout 300 bash $w/s/demo.sh >$w/out1 2>&1); r1=$?
  t0=$(date +%s)
  (cd $w/v && DSARI_REPO=$w/r timeout 900 ./check $prop quick >$w/chk 2>&1); rc=$?
  t1=$(date +%s)
  echo "$id $prop tests=$rt demo clean=$r0 patched=$r1 check rc=$rc ($((t1-t0))s) $(grep -m1 VIOLATION -A1 $w/chk | tail -1 | cut -c1-110)"
  [ $r0 = 0 ] || tail -5 $w/out0
  [ $r1 != 0 ] || tail -3 $w/out1
  [ $rt = 0 ] || tail -3 $w/tests
  [ $rc = 1 ] || tail -4 $w/chk | cut -c1-300
  rm -rf $w
done
