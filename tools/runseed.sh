#!/bin/bash
# tools/runseed.sh ID...  : run the check of each planted bug's property against a scratch copy with the bug applied
cd "$(dirname "$0")/.."
for id in "$@"; do
  w=$(mktemp -d /tmp/rs_XXXXXX); git -C /repo archive HEAD | tar x -C "$w"
  (cd "$w" && git init -q && git apply "/verif/seeded/$id/patch.diff") || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  out=$(VERIF_REPO="$w" timeout 900 ./check "$p" 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION | head -1)"
  rm -rf "$w"
done
