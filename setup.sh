#!/bin/bash
# Compiles the explorer once to show that it builds; every check builds its own binary.
set -e
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOCACHE="$ROOT/.cache/go-build"
mkdir -p "$ROOT/.build" "$ROOT/evidence"
cd "$ROOT/mc"
go vet ./... 
go build -o /dev/null .
