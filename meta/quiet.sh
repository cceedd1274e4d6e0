#!/bin/bash
# quiet.sh [NAME...]: apply each behaviour-preserving refactoring in meta/refactors to a scratch clone and run the checks on
# it (C="C05 C06" restricts the checks); anything but OK is a false alarm
cd "$(dirname "$(readlink -f "$0")")/.."; D=$PWD
names="$*"; [ -z "$names" ] && names=$(ls meta/refactors/*.diff | xargs -n1 basename | sed 's/\.diff$//')
all=$(ls engine/rules/c[0-9][0-9].py | sed 's#.*/c##;s#\.py##;s#^#C#')
w=/tmp/quietw.$$
rm -rf "$w"; trap "rm -rf $w" EXIT; git clone -q /repo $w
for n in $names; do
  git -C $w checkout -q -f HEAD -- .
  git -C $w apply $D/meta/refactors/$n.diff || { echo "$n: does not apply"; continue; }
  python3 -c "
import sys; sys.path.insert(0,'engine'); import dump; dump.dump('$w','$D/.build/quiet',{})" >$D/.build/quiet.log 2>&1 || { echo "$n: does not build"; tail -30 $D/.build/quiet.log; continue; }
  for c in ${C:-$all}; do
    out=$(timeout 900 python3 check.py $c --dump .build/quiet/mir 2>&1); r=$?
    [ $r = 0 ] && [ -n "$V" ] && echo "$n $c: quiet"
    [ $r != 0 ] && { echo "$n $c: ALARM ($r)"; echo "$out" | cut -c1-500 | tail -${L:-8}; }
  done
  echo "$n: done"
done
