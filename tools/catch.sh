#!/bin/bash
# catch.sh [--all] ID...: run the check of each planted bug's property (or, with --all, every check) against it.
cd "$(dirname "$0")/.." || exit 2
all=; [ "$1" = --all ] && { all=1; shift; }
[ $# = 0 ] && set -- $(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  res=
  for q in $([ -n "$all" ] && python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])" || echo "$p"); do
    s=$(date +%s)
    timeout 900 ./check.py "$q" quick > /tmp/catch.out.$$ 2>&1; rc=$?
    v=$(grep -c "^VIOLATION property=$q" /tmp/catch.out.$$)
    [ "$rc" = 0 ] || res="$res $q(rc=$rc,v=$v,$(($(date +%s)-s))s)"
  done
  git -C /repo checkout -q -- .
  echo "$b [$p]:${res:- MISSED}"
done
