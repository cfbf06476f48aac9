#!/bin/bash
# Nothing is kept between setup and checks: every check builds what it needs.
# This only verifies that the harness compiles.
cd "$(dirname "$0")/harness" || exit 1
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=$T/gocache CGO_ENABLED=0 go build -buildvcs=false -o "$T/harness" . && echo ok
