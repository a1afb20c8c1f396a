#!/bin/bash
# Builds the simulator from /repo's working tree into $1; with A0_RACE=1 also
# the worker that runs under the race detector.
set -e
out=$1
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME="${HOME:-/root}" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export GOCACHE="${A0_GOCACHE:-$here/.build/gocache}"
mkdir -p "$out" "$GOCACHE"
cd "$here/sim"
cp go.mod "$out/go.mod"; cp go.sum "$out/go.sum"
go build -modfile "$out/go.mod" -o "$out/mkoverlay" ./cmd/mkoverlay
go build -modfile "$out/go.mod" -o "$out/driver" ./cmd/driver
"$out/mkoverlay" "$(go env GOROOT)" /repo "$out/ov"
go build -modfile "$out/go.mod" -overlay "$out/ov/overlay.json" -o "$out/worker" ./cmd/worker
if [ "$A0_RACE" = 1 ]; then
  # only the code under test and the standard library are watched
  CGO_ENABLED=1 go build -race -tags netgo,osusergo -gcflags='a0sim/...=-race=false -l -d=checkptr=0' \
    -modfile "$out/go.mod" -overlay "$out/ov/overlay.json" -o "$out/worker-race" ./cmd/worker
fi
