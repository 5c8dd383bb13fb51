#!/bin/bash
# Runs the demonstration beside this file against the sources in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    echo "$sep\"$PWD/merge/zz$(basename "$f")\":\"$f\""
    sep=,
  done
  echo '}}'
} > "$t/overlay.json"
TMPDIR="$t" timeout 200 go test $DEMO_FLAGS -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" ./merge
