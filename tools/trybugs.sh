#!/bin/bash
# trybugs.sh [id...]: runs each planted bug's own check against it, in /repo, and undoes it
cd /verif; bash build.sh
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(./bin/gov check -prop $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep VIOLATION | head -1)"
done
