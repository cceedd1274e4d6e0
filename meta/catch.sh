#!/bin/bash
# catch.sh [ID...]: apply each seeded bug to a scratch clone and run its property's check on it (W= list of extra checks)
cd /verif
for id in ${@:-$(ls seeded)}; do
  w=/tmp/catchw; [ -d $w ] || git clone -q /repo $w
  git -C $w fetch -q origin && git -C $w reset -q --hard origin/HEAD
  git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  python3 -c "
import sys; sys.path.insert(0,'engine'); import dump; dump.dump('$w','/verif/.build/catch',{})" >/dev/null 2>&1
  for q in ${C:-$p}; do
    out=$(python3 check.py $q --dump .build/catch/mir 2>&1); rc=$?
    echo "$id $q rc=$rc $(echo "$out" | grep -v ' at ' | head -${L:-1} | cut -c1-150)"
  done
done
