#!/bin/bash
# tools/confirm.sh <seed id> [check...]: demo passes on the clean tree, fails with the patch, the tests pass with it,
# and (for each property given, default: the one of meta.json) the check reports it. Works in /repo, undone afterwards.
d=/verif/seeded/$1; shift
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo_clean.log 2>&1); c=$?
git -C /repo apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/seed_tests.json >/tmp/seed_test.log 2>&1; tr=$?
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo_bug.log 2>&1); b=$?
echo "$(basename $d): demo clean=$c bug=$b tests=$tr"
for p in $props; do
  bin=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p': print(c['quick_cmd'])")
  (cd /verif; timeout 900 $bin > /tmp/seed_check.log 2>&1; echo "   $p -> exit $? $(grep -m1 VIOLATION /tmp/seed_check.log)")
done
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
