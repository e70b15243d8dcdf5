#!/bin/bash
# inline.sh: every check must stay quiet after inlining all helpers (see dev/inlineall; built in a copy of x/tools)
. /opt/vp/env.sh; export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOMEMLIMIT=6GiB
here=$(cd "$(dirname "$0")" && pwd)
if [ ! -x /tmp/inlineall ]; then
  cp -a /root/go/pkg/mod/golang.org/x/tools@v0.52.0 /tmp/xtools; chmod -R u+w /tmp/xtools
  mkdir -p /tmp/xtools/cmd/inlineall; cp "$here/inlineall/main.go" /tmp/xtools/cmd/inlineall/
  (cd /tmp/xtools && sed -i '/telemetry\|goldmark\|go-cmp/d' go.mod && go build -o /tmp/inlineall ./cmd/inlineall) || exit 1
fi
d=/tmp/autoref.d/inlineall; mkdir -p /tmp/autoref.d; [ -d "$d" ] && find "$d" -delete
cp -a /repo "$d"; find "$d/.git" -delete
/tmp/inlineall "$d" || exit 1
TOOL=${TOOL:-/tmp/p2pverif}; v=/tmp/autoref.v/inlineall; mkdir -p "$v"; cp "$here/../known_findings.txt" "$v"
for c in ${CHECKS:-$($TOOL -list | grep -P '\t' | cut -f1)}; do echo $c; done | xargs -P 6 -I{} sh -c "timeout 890 $TOOL -check {} -repo $d -verif $v > $v/{}.out 2>&1; rc=\$?; [ \$rc -eq 0 ] || { echo inline {} rc=\$rc; grep '\[' $v/{}.out | grep -v '^ ' | head -3 | cut -c1-400; }"
echo done
