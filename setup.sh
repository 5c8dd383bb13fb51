#!/bin/bash
# Builds the symbolic machine and warms the build cache for the harnesses.
set -e
cd "$(dirname "$0")"
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off GOTOOLCHAIN=local
./harness/mkmod.sh
mkdir -p build
(cd engine && CGO_ENABLED=0 go build -o "$PWD/../build/hcheck" ./cmd/hcheck)
build/hcheck -root "$PWD" -warm
