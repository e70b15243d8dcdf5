#!/bin/bash
# check.sh <property>: decide one property on the current tree of /repo by static analysis.
# Builds the analyser from tool/ (nothing is kept) and runs it; nothing of /repo is executed.
id=$1
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOMEMLIMIT=12GiB
cd "$here/tool" || exit 2
out=$(go run . -check "$id" -verif "$here" -repo "${VERIF_REPO:-/repo}" 2>&1)
rc=$?
printf '%s\n' "$out" | grep -v '^exit status'
[ $rc -eq 0 ] && exit 0
printf '%s\n' "$out" | grep -q "^VIOLATION property=$id" && exit 1
echo "check of $id could not run (rc=$rc)"
exit 2
