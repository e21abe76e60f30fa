#!/bin/bash
# seed.sh ID [noverify]: verifies /verif/seeded/ID in a scratch copy (applies, builds, stable tests, demo both ways), then
# runs the property's quick check with the patch applied to /repo and undoes it.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_b0.txt 2>&1
( cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed_d0.txt 2>&1 ); r0=$?
git -C /repo apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed_b1.txt 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
rt=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=set(json.load(open('/tmp/seed_t.json'))['passed']);print(len(b-t))")
( cd /repo && timeout 300 bash $D/demo.sh >/tmp/seed_d1.txt 2>&1 ); r1=$?
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P >/tmp/seed_c.txt 2>&1; rc=$?
echo "$ID prop=$P build=$rb tests_lost=$rt demo_clean=$r0 demo_patched=$r1 check=$rc $( [ $rb = 0 -a $rt = 0 -a $r0 = 0 -a $r1 != 0 ] && echo VALID || echo INVALID ) $( [ $rc = 1 ] && echo CAUGHT || echo MISSED )"
grep -m2 VIOLATION /tmp/seed_c.txt
