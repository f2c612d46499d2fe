#!/bin/bash
# Warms the build cache; every check rebuilds from /repo's working tree anyway.
. /opt/vp/env.sh
export GOFLAGS= GOSUMDB=off GOTELEMETRY=off
cd "$(dirname "$0")/harness" || exit 1
T=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 1
trap 'rm -rf "$T"' EXIT
go build -buildvcs=false -o "$T/vchk" . && (cd /repo && go build -buildvcs=false -o "$T/" ./cmd/...)
