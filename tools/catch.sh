#!/bin/bash
# catch.sh [ID..]: runs the check of each planted bug (from its meta.json) against a patched scratch copy of /repo; prints whether it is caught
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=/tmp/catch-$id
  mkdir -p $d; cp -a /repo/. $d/
  git -C $d apply /verif/seeded/$id/patch.diff || echo "$id PATCH FAILS"
  t=$SECONDS
  ./run_check.py $p --repo $d --no-evidence > $d.txt 2>&1; rc=$?
  echo "$id $p rc=$rc $((SECONDS-t))s $(grep -c 'failed obligation' $d.txt) obligations; $(grep -o 'VIOLATION.*' $d.txt) $(grep 'failing input' $d.txt | head -1 | cut -c1-100)"
  find $d -delete
done
