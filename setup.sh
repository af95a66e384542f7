#!/bin/bash
# Warms the build cache; every check builds what it needs by itself anyway.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
cd mc && CGO_ENABLED=0 go build ./... && go vet ./... || exit 1
# the instrumented builds, with and without the race detector
T=$(mktemp -d /tmp/mcsetup.XXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
CGO_ENABLED=0 go build -o "$T/instrument" ./cmd/instrument || exit 1
"$T/instrument" -out "$T/ov" && CGO_ENABLED=0 go build -overlay "$T/ov/overlay.json" -o "$T/mc" ./cmd/mc
"$T/instrument" -out "$T/ov2" -yield && CGO_ENABLED=1 go build -race -overlay "$T/ov2/overlay.json" -o "$T/mc" ./cmd/mc
exit 0
