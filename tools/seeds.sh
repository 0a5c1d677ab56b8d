#!/bin/bash
# tools/seeds.sh [<id>...]   the quick check of each planted bug's property against the bug: CAUGHT or MISSED
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  t=$SECONDS
  out=$(timeout 1000 tools/try.sh "$PWD/seeded/$s/patch.diff" $p 2>&1)
  grep -q "error:\|exit [^01]" <<< "$out" && tail -3 <<< "$out"
  if grep -q "VIOLATION property=$p" <<< "$out"; then r=CAUGHT; else r=MISSED; fi
  echo "$r $s $p $((SECONDS-t))s $(grep -m1 -E 'class|VIOLATION' <<< "$out" | cut -c1-160)"
done
