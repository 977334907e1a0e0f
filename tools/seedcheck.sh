#!/bin/bash
# seedcheck.sh [ID...]: runs the check of each planted bug's property against a scratch copy of /repo with the bug applied
D=$(cd "$(dirname "$0")/.." && pwd); [ $# = 0 ] && set -- $(ls $D/seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$D/seeded/$id/meta.json'))['property'])"); W=$(mktemp -d /tmp/seedXXXXXX)
  git -C /repo archive HEAD | tar x -C "$W"; git -C "$W" init -q; git -C "$W" apply "$D/seeded/$id/patch.diff" || echo "$id: patch does not apply"
  cp "$D/evidence/$p.json" /tmp/ev-$p.json 2>/dev/null
  s=$(date +%s); python3 $D/check.py ${CHECK:-$p} --repo=$W > /tmp/seedcheck-$id.log 2>&1; rc=$?; echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/seedcheck-$id.log) $(grep -m1 -E 'reproduced|native|not decided' /tmp/seedcheck-$id.log | cut -c1-150)"
  cp /tmp/ev-$p.json "$D/evidence/$p.json" 2>/dev/null; rm -rf "$W"
done
