#!/bin/bash
# quiet.sh [NAME...]: applies each behaviour-preserving change of tools/refactorings to /repo; every check must stay quiet.
# NAME may be several joined with '+'. CHECKS="ID..." runs only those.
cd "$(dirname "$0")/.." || exit 2
[ $# = 0 ] && set -- $(ls tools/refactorings | sed 's/\.diff$//')
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for r in "$@"; do
  for f in ${r//+/ }; do
    git -C /repo apply "$PWD/tools/refactorings/$f.diff" || { echo "$f: does not apply"; git -C /repo checkout -q -- .; continue 2; }
  done
  res=
  for q in ${CHECKS:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}; do
    timeout 900 ./check.py "$q" quick > /tmp/quiet.$r.$q.out 2>&1; rc=$?
    [ "$rc" = 0 ] || res="$res $q(rc=$rc)"
  done
  git -C /repo checkout -q -- .
  echo "$r:${res:- quiet}"
done
