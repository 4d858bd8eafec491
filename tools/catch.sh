#!/bin/bash
# Runs the checks against planted bugs: for each seeded/<id> (or the ids given), applies the patch
# to /repo, runs the named property's quick check (or all with ALL=1), undoes the patch.
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  props=$p; [ -n "$ALL" ] && props=$(seq -f 'C%02g' 1 18)
  git -C /repo apply seeded/$id/patch.diff 2>/dev/null || git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id NOAPPLY"; continue; }
  for q in $props; do
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash check.sh $q quick >/tmp/catch.out 2>&1; rc=$?
    e=$(($(date +%s)-s))
    if [ $rc = 1 ] && grep -q "VIOLATION property=$q " /tmp/catch.out; then r=CAUGHT; elif [ $rc = 0 ]; then r=missed; else r="rc=$rc"; fi
    echo "$id $q $r ${e}s $(grep -v VIOLATION /tmp/catch.out | grep -i -m1 'detail\|what' | cut -c1-150)"
  done
  git -C /repo checkout -- .
done
