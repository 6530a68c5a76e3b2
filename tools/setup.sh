#!/bin/bash
# Nothing is kept between checks; this only shows that everything builds here.
HERE=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOWORK=off
cd /repo && go build -o "$W/simplify" . && go build -race -o "$W/simplify_race" . &&
cd "$HERE/harness" && go build -o "$W/" ./cmd/... && go build -race -o "$W/" ./cmd/racelib
