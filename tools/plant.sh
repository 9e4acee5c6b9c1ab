#!/bin/bash
# plant.sh ID [MUTATED_REPO] : makes seeded/ID/patch.diff from the mutated copy and confirms it:
# the demo passes on /repo and fails on the copy, the stable tests still pass with the patch.
id=$1; m=${2:-/tmp/m/repo}; d=/verif/seeded/$id; mkdir -p $d
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
git -C $m diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "$id: empty patch"; exit 1; }
git -C /repo apply --check $d/patch.diff || exit 1
(cd /repo && bash $d/demo.sh >/tmp/m/d0.out 2>&1); r0=$?
(cd $m && bash $d/demo.sh >/tmp/m/d1.out 2>&1); r1=$?
echo "$id demo: unchanged $r0, patched $r1 ($(tail -1 /tmp/m/d1.out | cut -c1-150))"
[ $r0 = 0 ] && [ $r1 != 0 ] || { cat /tmp/m/d0.out | tail -5; exit 1; }
[ -n "$NOTEST" ] && exit 0
git -C /repo apply $d/patch.diff
bash /opt/vp/test.sh /tmp/m/t.json > /tmp/m/t.log 2>&1
git -C /repo checkout -- .
python3 - <<'P'
import json,sys
p=set(json.load(open('/tmp/m/t.json'))['passed']); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('stable tests', 'pass' if s<=p else 'FAIL '+str(s-p))
sys.exit(0 if s<=p else 1)
P
