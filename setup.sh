#!/bin/bash
# Fills the build cache so that the checks start quickly. Every check also
# builds what it needs by itself.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=1
cd "$here/harness" && go build -o /dev/null . || exit 1
cd /repo && go build -o /dev/null ./cmd/idmd && go build -race -o /dev/null ./cmd/idmd
