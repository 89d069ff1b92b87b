#!/bin/bash
# measure.sh [ID...]: which planted bugs do the checks of their properties catch (quick tier)?  Works on scratch copies.
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  W=$(mktemp -d /tmp/measure.XXXXXX)
  cp -a /repo "$W/repo" && git -C "$W/repo" checkout -q -- . && git -C "$W/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$W"; continue; }
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' seeded/$id/meta.json)
  [ -n "$ONLY" ] && p=$ONLY
  if [ -e mc/props/${p,,}.py ]; then
    t=$SECONDS
    MC_REPO=$W/repo timeout 900 bin/check $p ${TIER:-quick} >"$W/out" 2>&1; c=$?
    echo "$id $p exit=$c $(grep -c '^VIOLATION' "$W/out") violations, $((SECONDS-t)) s: $(grep -m1 -A1 '^VIOLATION' "$W/out" | tail -1 | cut -c1-200)"
  else echo "$id: $p has no check"; fi
  rm -rf "$W"
done
