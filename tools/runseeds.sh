#!/bin/bash
# runseeds.sh [-a] [id ...]: apply each planted bug to /repo, run its property's check (-a: every check), undo.
cd "$(dirname "$0")/.." || exit 2
all=; [ "${1:-}" = -a ] && { all=1; shift; }
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  props=$p; [ -n "$all" ] && props=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")
  hit=; own=MISSED
  for q in $props; do
    out=$(bash run.sh "$q" 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "^VIOLATION property=$q " <<<"$out"; then hit="$hit $q"; [ "$q" = "$p" ] && own=caught
    elif [ $rc != 0 ]; then hit="$hit $q(rc$rc)"; fi
  done
  echo "$id ($p): $own;$hit"
  git -C /repo checkout -q -- .
done
