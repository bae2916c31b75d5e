#!/bin/bash
# Development aid: confirm the planted bugs seeded/<id> (demo passes clean, fails patched; stable tests pass) and
# show what their property's check says.  Usage: bin/try_bug.sh [--fast] ID...   (--fast: no build/test)
fast=0; [ "$1" = --fast ] && { fast=1; shift; }
cd /verif || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  ( cd /repo; timeout 300 bash $d/demo.sh ) >/tmp/demo_clean.log 2>&1; c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  ( cd /repo; timeout 300 bash $d/demo.sh ) >/tmp/demo_bug.log 2>&1; b=$?
  t=-
  if [ $fast = 0 ]; then
    ( bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/bug_o.json ) >/tmp/bug_bt.log 2>&1
    t=$(python3 -c "
import json
o=json.load(open('/tmp/bug_o.json'))['passed'];s=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('ok' if all(x in o for x in s) else [x for x in s if x not in o])")
    rm -f /tmp/bug_o.json
  fi
  VERIF_SEED=1 timeout 900 python3 bin/check.py $prop >/tmp/bug_check.log 2>&1; k=$?
  git -C /repo checkout -q -- .
  echo "$id: property $prop demo clean=$c bug=$b tests=$t check=$k $(grep -m1 '^VIOLATION' /tmp/bug_check.log)"
done
