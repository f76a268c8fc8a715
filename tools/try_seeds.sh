#!/bin/bash
# tries checks against planted bugs in a scratch copy: tools/try_seeds.sh id...   (not part of any check)
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo/. "$t/r"; git -C "$t/r" apply "$PWD/seeded/$id/patch.diff"
  LIQ_REPO=$t/r LIQ_WORK=$t/w LIQ_EVID=$t/e timeout 900 python3 sa/run.py "$prop" --tier quick > "$t/o" 2>&1
  echo "$id $prop exit=$? $(grep -m1 VIOLATION "$t/o" | cut -c1-160)"
  rm -rf "$t"
done
