#!/bin/bash
# run.sh ID - build the server under test from /repo and run one check on it.
# Everything is built into a private scratch directory that is removed again.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=1
id=${1:?usage: run.sh ID}
repo=${VERIF_REPO:-/repo}
out=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
fail() { echo "# $id inconclusive: $1"; exit 2; }
(cd "$here/harness" && go build -o "$out/vh" .) || fail "harness does not build"
case " C19 " in *" $id "*) race=1;; esac
case " C02 " in *" $id "*) trace=1;; esac
(cd "$repo" && go build -o "$out/idmd" ./cmd/idmd) || fail "server does not build"
export IDMD=$out/idmd
if [ -n "$race" ]; then
  (cd "$repo" && go build -race -o "$out/idmd-race" ./cmd/idmd) || fail "race build failed"
  export IDMD_RACE=$out/idmd-race
fi
if [ -n "$trace" ]; then
  cp "$repo/go.mod" "$out/trace.mod" && cp "$repo/go.sum" "$out/trace.sum" || fail "copy go.mod"
  (cd "$repo" && go mod edit -replace "go.etcd.io/bbolt=$here/harness/third_party/bbolt" "$out/trace.mod" &&
    go build -modfile "$out/trace.mod" -o "$out/idmd-trace" ./cmd/idmd) || fail "trace build failed"
  export IDMD_TRACE=$out/idmd-trace
fi
export VERIF_ROOT=$here
export TMPDIR=$out
"$out/vh" "$id"
exit $?
