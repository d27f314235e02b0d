#!/bin/bash
# seedtest.sh ID [nocheck]: demo on the clean tree, then with the patch: build, stable tests, demo, check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "$id: /repo not clean"; exit 1; }
bash $d/demo.sh >/tmp/seed.demo0 2>&1 || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/seed.demo0; exit 1; }
git apply $d/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
/verif/tools/basetest.sh > /tmp/seed.base 2>&1 || { echo "$id: TESTS NOTICE IT"; cat /tmp/seed.base; exit 1; }
if bash $d/demo.sh >/tmp/seed.demo1 2>&1; then echo "$id: DEMO PASSES WITH THE BUG"; exit 1; fi
[ "$2" = nocheck ] && { echo "$id ($prop): valid"; exit 0; }
/verif/check.sh $prop quick > /tmp/seed.check 2>&1; rc=$?
if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " /tmp/seed.check; then echo "$id ($prop): valid, CAUGHT: $(head -c 300 /tmp/seed.check | tr '\n' ' ')"; else echo "$id ($prop): valid, MISSED rc=$rc: $(tail -c 600 /tmp/seed.check)"; fi
