#!/bin/bash
# bash /verif/check.sh -prop C01 [-tier thorough]   run the check of a property
# bash /verif/check.sh -replay FILE                 replay a recorded violation
# bash /verif/check.sh -build                       build only
cd "$(dirname "$0")" || exit 3
V=$(pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=$V/.build/gocache
mkdir -p "$V/.build"
unset GODEBUG GOMAXPROCS GOROOT
BIN=$(mktemp -d) || exit 3
trap 'rm -rf "$BIN"' EXIT
(cd sim && go build -o "$BIN/simcheck" ./cmd/simcheck) || exit 3
"$BIN/simcheck" -verif "$V" "$@"
