#!/bin/bash
# usage: cd <repo>; demo.sh : runs the demonstration tests beside this script inside the packages they belong to.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
pkg=$(cat "$here/pkg.txt")
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    echo "$sep\"$PWD/$pkg/zz_verif_$(basename "$f")\":\"$f\""; sep=,
  done
  echo '}}'
} > "$ov"
go test -overlay "$ov" -vet=off -count=1 -timeout 120s -run '^TestVerifDemo' "./$pkg"
