#!/bin/bash
# build.sh SCRATCH [go build flags]: instruments /repo's current tree and builds the model checker into SCRATCH.
set -e -o pipefail
S=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTMPDIR=$S
mkdir -p "$S/ov"
cp -r "$here" "$S/mc"
cd "$S/mc"
awk -v S="$S" '/^module /{print "module verif.local/mc"; next} /^go /{print "go 1.23"; next} /^toolchain /{next} {print} END{print "require zntr.io/solid v0.0.0"; print "replace zntr.io/solid => /repo"; print "replace github.com/patrickmn/go-cache => " S "/ov/gocache"; print "godebug default=go1.21"}' /repo/go.mod > "$S/mc/go.mod"
cp /repo/go.sum "$S/mc/go.sum"
(cd instr && GOFLAGS= GO111MODULE=off go build -o "$S/instr" .)
"$S/instr" "$S/ov" /repo "$GOMODCACHE/github.com/patrickmn/go-cache@v2.1.0+incompatible" >&2
if ! go build -overlay "$S/ov/overlay.json" "$@" -o "$S/bin" ./cmd/mc; then
	# A construct the instrumentation cannot rewrite: keep the virtual clock, give up scheduling points.
	echo "build.sh: building without scheduling points" >&2
	MC_POINTS=0 "$S/instr" "$S/ov" /repo "$GOMODCACHE/github.com/patrickmn/go-cache@v2.1.0+incompatible" >&2
	go build -overlay "$S/ov/overlay.json" "$@" -o "$S/bin" ./cmd/mc
fi
