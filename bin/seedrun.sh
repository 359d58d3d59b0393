#!/bin/bash
# seedrun.sh ID...: apply each planted bug, rebuild, run the stable tests, its demo and the check of its property
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  d=$(mktemp -d); cp $s/* $d/; rm -f $d/*.diff $d/meta.json
  [ -n "$again" ] && bash /opt/vp/build.sh >/dev/null 2>&1; again=1
  bash $d/demo.sh >$d/o0 2>&1; clean=$?
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >$d/b 2>&1; b=$?
  t=$(bash /opt/vp/test.sh $d/t.json 2>/dev/null | tail -1)
  bash $d/demo.sh >$d/o1 2>&1; bug=$?
  if [ -z "$NOCHECK" ]; then python3 /verif/bin/check.py $prop >$d/c 2>&1; c=$?; v=$(grep -m1 VIOLATION $d/c); else c=-; v=; fi
  git checkout -q -- .
  echo "$id $prop build=$b tests='$t' demo clean=$clean bug=$bug check=$c $v"
  [ $clean = 0 ] || head -5 $d/o0
  rm -rf $d
done
bash /opt/vp/build.sh >/dev/null 2>&1
