#!/bin/bash
# seedtest.sh ID...: confirm a seeded bug in a scratch copy: applies, builds, stable tests pass, demo passes without and fails with it
for id in "$@"; do
  d=/verif/seeded/$id
  w=/tmp/seedw
  if [ ! -d $w ]; then cp -a /repo $w; fi
  git -C $w checkout -q -f HEAD -- . ; git -C $w clean -fdq >/dev/null
  git -C $w fetch -q /repo HEAD && git -C $w reset -q --hard FETCH_HEAD
  dd=$(mktemp -d /tmp/demoXXXX); cp $d/* $dd/; rm -f $dd/patch.diff $dd/meta.json
  (cd $w && cargo build --offline -q 2>/dev/null && cargo build --offline -q -p xdvdfs-fsd 2>/dev/null; timeout 300 bash $dd/demo.sh) >$dd/log0 2>&1; a=$?
  git -C $w apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $w && cargo build --offline 2>&1 | grep -E '^(warning: unused|error)' ; cargo build --offline -q -p xdvdfs-fsd 2>/dev/null; timeout 300 bash $dd/demo.sh) >$dd/log1 2>&1; b=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    sed "s#/repo#$w#g" /opt/vp/test.sh > /tmp/seed_test.sh
    bash /tmp/seed_test.sh /tmp/seed_out.json >/dev/null 2>&1
    t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seed_out.json'))
p=set(o.get('passed') or [k for k,v in o.get('results',o).items() if v in ('pass','PASS',True,'passed')])
m=[x for x in b if x not in p]
print('tests-ok' if not m else 'TESTS-FAIL %s'%m[:5])
PY
)
  fi
  git -C $w checkout -q -f HEAD -- .
  echo "$id: clean=$a patched=$b $t"
  [ $a != 0 ] && tail -15 $dd/log0
  [ $b = 0 ] && tail -15 $dd/log1
  /bin/rm -r $dd
done
