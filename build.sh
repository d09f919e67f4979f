#!/bin/bash
# usage: build.sh OUTDIR [race]
# Instruments /repo's current working tree and builds the simulator from it into OUTDIR/simrun.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$(mkdir -p "$1" && cd "$1" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset GOROOT
export GOENV=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOVCS='*:off' GOFLAGS=-mod=readonly
repo=${VERIF_REPO:-/repo}
(cd "$here/sim/instr" && go build -o "$out/instr" .)
flags=
[ "$2" = race ] && flags=-race
"$out/instr" $flags -repo "$repo" -sim "$here/sim" -out "$out"
cd "$repo"
go build $flags -overlay "$out/overlay.json" -o "$out/simrun" github.com/kitex-contrib/xds/verifsim/cmd/simrun
