#!/usr/bin/env bash
# Builds main.go (beside this script) against the compiler in the current directory and runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
race=
if [ -f "$here/race" ]; then race=-race; export CGO_ENABLED=1; fi
d=$(mktemp -d) || exit 3
trap 'rm -rf -- "$d"' EXIT
cp "$here"/*.go "$d/" && cp "$repo/go.sum" "$d/go.sum" || exit 3
sed 's/^module .*/module demo/' "$repo/go.mod" >"$d/go.mod"
printf 'require github.com/stephen/cssc v0.0.0\nreplace github.com/stephen/cssc => %s\n' "$repo" >>"$d/go.mod"
cd "$d" && go build $race -o demo . || exit 3
timeout 100 ./demo
