#!/bin/bash
# usage: verify_seed.sh ID...   for each planted bug: demo passes on the unchanged tree, patch applies, builds,
# stable tests pass, demo fails; then the check of its property (extra checks: EXTRA="P01 P02") is run on the patched tree.
cd /repo || exit 1
[ -z "$(git status --short)" ] || { echo "repo dirty"; exit 1; }
for id in "$@"; do
  s=/verif/seeded/$id; ok=1
  t=$(mktemp -d); cp -a $s/. $t/; rm -f $t/*.diff $t/meta.json
  bash $t/demo.sh > /tmp/demo.log 2>&1 || { echo "$id: demo fails on the unchanged tree"; ok=0; cat /tmp/demo.log | head -5; }
  git apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$NOBUILD" ]; then
    bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "$id: build fails"; tail -5 /tmp/seed_build.log; ok=0; }
    bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1; grep -q "148 passed, 0 failed" /tmp/seed_test.log || { echo "$id: tests: $(tail -1 /tmp/seed_test.log)"; ok=0; }
  fi
  bash $t/demo.sh > /tmp/demo.log 2>&1 && { echo "$id: demo passes with the patch"; ok=0; }
  tail -1 /tmp/demo.log | cut -c1-150
  rm -rf "$t"
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  for q in $p $EXTRA; do
    r=$(cd /verif && python3 check.py $q 2>&1 | grep -E "^(VIOLATION|OK|KNOWN|NO)" | head -1 | cut -c1-200)
    echo "$id: valid=$ok check $q: $r"
  done
  git checkout -q -- .
done
