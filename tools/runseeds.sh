#!/bin/bash
# runseeds.sh [ID...]: run each planted bug's check on a scratch copy of /repo carrying the bug.
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
for id in $ids; do
  w=/tmp/seedrun; rm -rf /tmp/seedrun; mkdir $w; (cd /repo && tar c --exclude=_build --exclude=.git .) | tar x -C $w
  (cd $w && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: patch fails"; continue; }
  prop=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  s=$(date +%s)
  VERIF_REPO=$w timeout 900 python3 tools/check.py $prop > /tmp/seedrun-$id.log 2>&1; rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s) - s ))s $(grep -c VIOLATION /tmp/seedrun-$id.log) $(grep -m1 -A3 -E 'outcome differs|fails on|recorded outcomes|depends on' /tmp/seedrun-$id.log | tr '\n' ' ' | cut -c1-${WIDTH:-200})"
done
rm -rf /tmp/seedrun
