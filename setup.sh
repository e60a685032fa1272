#!/usr/bin/env bash
# Warms the build cache (with and without the race detector), so that the first check isn't slow.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
out=$(mktemp -d) || exit 1
trap 'rm -rf -- "$out"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$out/" || exit 1
cd "$here/harness" || exit 1
CGO_ENABLED=0 go build -modfile "$out/go.mod" -o "$out/a" ./cmd/check && CGO_ENABLED=1 go build -race -modfile "$out/go.mod" -o "$out/b" ./cmd/check
