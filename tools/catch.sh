#!/bin/bash
# catch.sh [ID...]: run the check of each planted bug against a scratch copy of /repo that has the bug.
cd "$(dirname "$0")/.."
for id in ${*:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo "$w/repo"
  git -C "$w/repo" checkout -q -- . && git -C "$w/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$w"; continue; }
  s=$(date +%s)
  UDAPI_REPO="$w/repo" VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py "$prop" --tier quick --no-evidence --no-min > "$w/out" 2>"$w/err"; rc=$?
  e=$(($(date +%s)-s))
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop" "$w/out"; then echo "$id: caught by $prop in ${e}s: $(grep "^$prop:" "$w/out" | head -1 | cut -c1-160)"
  else echo "$id: MISSED by $prop (rc $rc, ${e}s) $(tail -2 "$w/out" | cut -c1-200)"; fi
  rm -rf "$w"
done
