#!/bin/bash
# catch.sh [ids...]: run the property's check on each seeded bug
cd /verif; ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  git -C /tmp/sw fetch -q /repo HEAD; git -C /tmp/sw reset -q --hard FETCH_HEAD; git -C /tmp/sw apply /verif/seeded/$i/patch.diff || { echo "$i APPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  s=$(date +%s); out=$(PTL_REPO=/tmp/sw timeout 900 python3 tools/check.py $p 2>&1); e=$?
  echo "$i: $p exit $e ($(( $(date +%s) - s )) s) $(echo "$out" | grep -v "^$p quick" | head -1 | cut -c1-170)"
done
