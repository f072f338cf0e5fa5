#!/bin/bash
# bash /verif/run.sh PROPERTY TIER [args]: builds the explorer against /repo's working tree and runs one check.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOCACHE="$ROOT/.cache/go-build"
PROP=${1:?property}; TIER=${2:-quick}; shift; shift
BIN=$ROOT/.build/mc.$$
mkdir -p "$ROOT/.build" "$ROOT/evidence"
trap 'rm -f "$BIN" "$BIN.cli"' EXIT
RACE=
if [ "$PROP" = P23 ]; then # decided with the race detector
    RACE=-race
    export CGO_ENABLED=1
fi
if ! (cd "$ROOT/mc" && go build $RACE -o "$BIN" .); then
    echo "build failed" >&2
    exit 2
fi
if [ "$PROP" = P27 ] && ! (cd "$ROOT/mc" && go build -o "$BIN.cli" github.com/benedoc-inc/pdfer/cmd/pdfer); then
    echo "build failed" >&2
    exit 2
fi
"$BIN" -root "$ROOT" -prop "$PROP" -tier "$TIER" "$@"
