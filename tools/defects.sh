#!/bin/bash
# Re-introduces, in the models, the defects that the code once had (and a hash without prefixes); TLC must object to each.
cd "$(dirname "$0")/../spec" || exit 2
../build.sh >/dev/null || exit 2
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
bad=0
try() { # module cfg sed-expression
  sed "$3" "$2" > "$tmp/x.cfg"
  cmp -s "$2" "$tmp/x.cfg" && { echo "$1 $3: nothing to change"; bad=1; return; }
  java -XX:+UseParallelGC -Xss64m -Xmx4g -cp ../build/java:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    -DTLA-Library="$PWD" tlc2.TLC -noGenerateSpecTE -workers 4 -metadir "$tmp/m" -config "$tmp/x.cfg" "$1.tla" > "$tmp/out" 2>&1
  if grep -q "is violated\|evaluated to FALSE\|is false" "$tmp/out"; then
    echo "$1 with '$3': rejected: $(grep -m1 'is violated\|is false' "$tmp/out")"
  else echo "$1 with '$3': NOT REJECTED"; tail -3 "$tmp/out"; bad=1; fi
}
try MC_Binary MC_Binary.cfg 's/Unrecoverable = FALSE/Unrecoverable = TRUE/'
try MC_Sum MC_Sum.cfg 's/Forgets = FALSE/Forgets = TRUE/'
try MC_Sparse MC_Sparse_quick2.cfg 's/RemoveFirst = FALSE/RemoveFirst = TRUE/'
try MC_Inject MC_Inject.cfg 's/Prefixed = TRUE/Prefixed = FALSE/'
exit $bad
