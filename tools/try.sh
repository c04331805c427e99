#!/bin/bash
# try.sh ID...: runs the check of each seeded change's property on a copy of /repo with the change applied
rm -rf /tmp/try; cp -a /repo /tmp/try
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /tmp/try apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(cd /verif && GENCO_REPO=/tmp/try python3 analysis/main.py $p quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
  git -C /tmp/try checkout -q -- .
done
rm -rf /tmp/try
