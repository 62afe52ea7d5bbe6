#!/bin/bash
# Usage: tools/seed.sh ID   (with the change applied in /repo's working tree)
#   records the change as seeded/ID/patch.diff and confirms it:
#   builds, tests pass, demo fails with it and passes without it, and which check sees it.
# tools/seed.sh ID check    only re-runs the check against the recorded change.
ID=$1
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" = check ]; then
  git -C /repo apply "$D/patch.diff" || exit 2
else
  git -C /repo diff --quiet && { echo "no change"; exit 2; }
  git -C /repo diff > "$D/patch.diff"
  [ -s "$D/patch.diff" ] || { echo "no change"; exit 2; }
  bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/seed-build.log; exit 2; }
  bash /opt/vp/test.sh /tmp/seed-test.json > /tmp/seed-test.log 2>&1 && echo "tests pass" || { echo "TESTS FAIL"; grep -a "^test .*FAILED\|panicked" /repo/target/vp-test.log | head; exit 2; }
  (cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/seed-demo.log 2>&1) && { echo "DEMO PASSES WITH THE CHANGE"; tail -5 /tmp/seed-demo.log; exit 2; } || echo "demo fails with the change: $(tail -1 /tmp/seed-demo.log | cut -c1-150)"
fi
(cd /verif && timeout 900 ./run.sh "$P" quick > /tmp/seed-check.log 2>&1); RC=$?
grep -a -m1 "VIOLATION" /tmp/seed-check.log | cut -c1-200; grep -a -A2 -m1 VIOLATION /tmp/seed-check.log | tail -1 | cut -c1-200
[ $RC = 1 ] && echo "CAUGHT by $P" || echo "MISSED by $P (rc $RC)"
git -C /repo checkout -- .
if [ "$2" != check ]; then
  bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1
  (cd /repo && timeout 300 bash "$D/demo.sh" > /tmp/seed-demo.log 2>&1) && echo "demo passes without it" || { echo "DEMO FAILS ON THE UNCHANGED TREE"; tail -5 /tmp/seed-demo.log; }
fi
