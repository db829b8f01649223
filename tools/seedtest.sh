#!/bin/bash
# seedtest.sh ID [notests]: demo without/with the patch, the check of its property, optionally the test suite
V=${PML_VERIF:-/verif} R=${PML_REPO:-/repo} VP=${PML_VP:-/opt/vp}   # run on clones by setting these
id=$1; S=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $R && [ -z "$(git status --porcelain)" ] || { echo "$R dirty"; exit 2; }
bash $VP/build.sh >/dev/null 2>&1; bash $S/demo.sh >/tmp/seed_demo.log 2>&1; echo "$id demo clean: $?"; tail -2 /tmp/seed_demo.log
git apply $S/patch.diff || exit 2
bash $VP/build.sh >/tmp/seed_build.log 2>&1 || { echo BUILD FAILS; tail -5 /tmp/seed_build.log; }
bash $S/demo.sh >/tmp/seed_demo.log 2>&1; echo "$id demo patched: $?"; tail -2 /tmp/seed_demo.log
VERIF_SEED=1 VERIF_TIER=quick R=$R/ntl-extras $V/bin/check $p 2>&1 | tail -3; 
if [ "$2" != notests ]; then bash $VP/test.sh /tmp/seed_res.json >/dev/null 2>&1; python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/seed_res.json'))
m=b-set(r['passed']); print('$id stable tests failing:',sorted(m) or 'none')
P
fi
git checkout -- . ; bash $VP/build.sh >/dev/null 2>&1
