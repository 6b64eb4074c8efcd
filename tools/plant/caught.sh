#!/bin/bash
# caught.sh ID...: apply each planted bug to /repo, run the quick check of its property, undo it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  ./check $p quick > /tmp/plant/$id.check 2>&1; c=$?
  git -C /repo checkout -q -- .
  if [ $c = 1 ] && grep -qa "^VIOLATION property=$p" /tmp/plant/$id.check; then r="yes, $p"; else r="no (exit $c)"; fi
  echo "$id $r"; grep -a "^violation\|^  sig" /tmp/plant/$id.check | cut -c1-200 | head -3
  sed -i "/^$id /d" tools/plant/results.txt 2>/dev/null; echo "$id $r" >> tools/plant/results.txt
done
