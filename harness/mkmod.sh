#!/bin/bash
# Writes go.mod and go.sum of the harness module from /repo's current ones.
set -e
cd "$(dirname "$0")"
REPO=${REPO:-/repo}
{
  echo "module github.com/lyraproj/hiera/zzverif"
  echo
  sed -e '/^module /d' "$REPO/go.mod"
  echo
  echo "require github.com/lyraproj/hiera v0.0.0"
  echo "replace github.com/lyraproj/hiera => $REPO"
} > go.mod.new
cmp -s go.mod.new go.mod || cp go.mod.new go.mod
rm -f "$PWD/go.mod.new"
cmp -s "$REPO/go.sum" go.sum || cp "$REPO/go.sum" go.sum
