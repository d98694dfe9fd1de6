#!/bin/bash
# try_bug.sh <id> [nocheck]: confirms a planted bug in a scratch copy (builds, passes tests, demo fails with / passes without), then runs its property's check on it
id=$1; B=/verif/seeded/$id
S=/tmp/seedcopy; mkdir -p $S; rsync -a --delete --exclude .git /repo/ $S/ 2>/dev/null || { rm -rf /tmp/seedcopy; cp -a /repo /tmp/seedcopy; }
prop=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
(cd $S; bash $B/demo.sh >/tmp/seed_demo0.log 2>&1); r0=$?
(cd $S; git init -q . 2>/dev/null; git apply $B/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
sed 's#cd /repo#cd /tmp/seedcopy#' /opt/vp/env.sh > /tmp/seed_env.sh
(. /tmp/seed_env.sh; cargo test --workspace --offline > /tmp/seed_test.log 2>&1); rt=$?
pass=$(grep -c "\.\.\. ok$" /tmp/seed_test.log); fl=$(grep -c "\.\.\. FAILED$" /tmp/seed_test.log)
(cd $S; bash $B/demo.sh >/tmp/seed_demo1.log 2>&1); r1=$?
echo "$id: demo clean=$r0 patched=$r1 tests rc=$rt ok=$pass failed=$fl"
[ $fl -gt 0 ] && grep "FAILED$" /tmp/seed_test.log | head -5
if [ "$2" != nocheck ]; then
  git -C /repo apply $B/patch.diff && (cd /verif; timeout 900 python3 check.py $prop > /tmp/seed_check.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "   check $prop rc=$rc"; tail -4 /tmp/seed_check.log | cut -c1-300
fi
