#!/bin/bash
# seedtest.sh NAME CHECK...: does the planted bug build, pass the tests, fail its demo, and which checks see it?
d=/verif/seeded/$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
if [ -z "$SKIP_CLEAN" ]; then bash $d/demo.sh > /tmp/seed.demo0 2>&1; echo "demo on the unchanged tree: $?"; fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh > /tmp/seed.demo1 2>&1; echo "demo with the change: $?"; tail -3 /tmp/seed.demo1
for c in "$@"; do
  VERIF_SEED=1 timeout 900 python3 /verif/tools/check.py $c > /tmp/seed.$c 2>&1; echo "check $c: exit $?"
  grep -A4 "^VIOLATION" /tmp/seed.$c | cut -c1-300 | head -8
done
if [ -z "$SKIP_TESTS" ]; then bash /tmp/base.sh 2>&1 | tail -2; fi
