#!/bin/bash
# autoref.sh MODE...: every check must stay quiet on the mechanically rewritten repository
. /opt/vp/env.sh; export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOMEMLIMIT=6GiB
here=$(cd "$(dirname "$0")" && pwd)
(cd "$here/autoref" && go build -o /tmp/autoref.bin .) || exit 1
TOOL=${TOOL:-/tmp/p2pverif}
for m in "$@"; do
  d=/tmp/autoref.d/$m; mkdir -p /tmp/autoref.d; [ -d "$d" ] && find "$d" -delete
  cp -a /repo "$d"; find "$d/.git" -delete
  /tmp/autoref.bin "$m" "$d" || { echo "$m: REWRITE FAILS"; continue; }
  (cd "$d" && go build ./... ) 2>&1 | head -5
  (cd "$d" && go vet ./... 2>&1 | grep -v "^#\|test.go" | head -5)
  v=/tmp/autoref.v/$m; mkdir -p "$v"; cp "$here/../known_findings.txt" "$v"
  for c in ${CHECKS:-$($TOOL -list | grep -P '\t' | cut -f1)}; do echo $c; done | xargs -P 6 -I{} sh -c "timeout 890 $TOOL -check {} -repo $d -verif $v > $v/{}.out 2>&1; rc=\$?; [ \$rc -eq 0 ] || { echo $m {} rc=\$rc; grep '\[' $v/{}.out | grep -v '^ ' | head -3 | cut -c1-400; }"
  echo "== $m done"
  [ -z "$KEEP" ] && find "$d" -delete
done
