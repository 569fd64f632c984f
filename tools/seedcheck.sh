#!/bin/bash
# usage: tools/seedcheck.sh ID...: does the check of its property report the seeded change? (in a copy of /repo's sources)
cd "$(dirname "$0")/.." || exit 9
for i in "$@"; do
  t=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo/src "$t/src"
  (cd "$t" && patch -s -p1 < /verif/seeded/$i/patch.diff) || echo "$i: patch fails"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  VP_REPO=$t VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check $p > $t/log 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -c '^VIOLATION' $t/log) $(grep -m1 -o '^rejected.*' $t/log | cut -c1-120)"
  find "$t" -delete
done
