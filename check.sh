#!/bin/bash
# Decides one property: check.sh <id> [quick|thorough], or check.sh -native <replay file>.
set -e
cd "$(dirname "$0")"
ROOT=$PWD
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off GOTOOLCHAIN=local
"$ROOT/harness/mkmod.sh"
BIN=$ROOT/build/hcheck
mkdir -p "$ROOT/build"
(cd "$ROOT/engine" && CGO_ENABLED=0 go build -o "$BIN" ./cmd/hcheck)
if [ "$1" = "-native" ]; then
  id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2")
  exec "$BIN" -root "$ROOT" -prop "$id" -native "$2"
fi
ID=$1; shift
TIER=${1:-quick}; [ $# -gt 0 ] && shift
exec "$BIN" -root "$ROOT" -prop "$ID" -tier "$TIER" "$@"
