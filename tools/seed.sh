#!/bin/bash
# seed.sh ID [notest] [nocheck]: confirm a planted bug (in /repo, undone at the end)
id=$1; D=/verif/seeded/$id; R=/repo
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd $R; git diff --quiet || { echo "repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/demo0.log 2>&1; echo "$id demo unchanged: $?"
git apply $D/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/demo1.log 2>&1; echo "$id demo patched: $?"
if [[ " $* " != *" notest "* ]]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1; python3 -c "
import json;t=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('$id stable tests failing:',sorted(set(b['stable'])-set(t['passed'])))"; fi
if [[ " $* " != *" nocheck "* ]]; then (cd /verif; timeout 900 python3 tools/vp.py check $prop > /tmp/check.log 2>&1; echo "$id check $prop exit $?"; grep VIOLATION /tmp/check.log | head -3); fi
