#!/bin/bash
# usage: check.sh <property>... : builds the analyzer from /verif/sa (offline) and decides the
# properties from the current source in /repo. Exit 0 / 1 (VIOLATION line).
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export VERIF_DIR="$here"
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
(cd "$here/sa" && go build -o "$out/ddlverif" .) || { echo "the analyzer does not build"; exit 2; }
if [ "$1" = selftest ]; then "$out/ddlverif" selftest; exit $?; fi
"$out/ddlverif" check "$@"
