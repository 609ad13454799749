#!/bin/bash
# catch.sh [ID...]: run the check of each planted bug's property against a scratch copy with the bug; CHECKS="C01 C02" overrides.
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch_XXXX); cp -a /repo/. $w; git -C $w apply $PWD/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); VERIF_REPO=$w ./check.sh $c > /tmp/catch_out 2>&1; rc=$?
    echo "$id $c exit=$rc $(($(date +%s)-s))s $(grep -c '^VIOLATION' /tmp/catch_out) $(grep -A1 '^VIOLATION' /tmp/catch_out | grep -v '^VIOLATION' | head -1 | cut -c1-160)"
  done
  rm -r $w
done
