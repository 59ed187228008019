#!/bin/bash
# Warms the build cache; the checks do not depend on it.
cd "$(dirname "$0")/mc" || exit 1
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off CGO_ENABLED=0
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
w=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 1
go build -buildvcs=false -o "$w/mc" .
rc=$?
rm -rf "$w"
exit $rc
