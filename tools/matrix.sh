#!/bin/bash
# Applies each planted bug to /repo in turn and runs the check of its property:
# every one should end with exit 1 and a VIOLATION line. Usage: tools/matrix.sh [pattern...]
cd "$(dirname "$0")/.."
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
miss=0
for d in seeded/*/; do
  id=$(basename "$d"); [ $# -gt 0 ] && { ok=; for p in "$@"; do [[ $id == $p ]] && ok=1; done; [ "$ok" ] || continue; }
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
  git -C /repo apply "$PWD/$d/patch.diff" || { echo "$id: does not apply"; miss=1; continue; }
  s=$(date +%s); out=$(VERIF_SEED=${VERIF_SEED:-1} ./check "$prop" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then r=caught; else r="MISSED (exit $rc)"; miss=1; fi
  echo "$id: $r, $(( $(date +%s) - s )) s"
done
exit $miss
