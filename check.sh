#!/usr/bin/env bash
# check.sh <property> [--replay FILE]: builds the harness against /repo's working tree and decides a property.
# VERIF_SEED and VERIF_TIER choose the cases.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX") || exit 3
trap 'rm -rf -- "$out"' EXIT
race=()
export CGO_ENABLED=0
if [ "$id" = C11 ] || [ "$id" = C20 ]; then race=(-race); export CGO_ENABLED=1; fi
# The module files are copied so that the build cannot change committed ones.
cp "$here/harness/go.mod" "$here/harness/go.sum" "$out/" || exit 3
if ! (cd "$here/harness" && go build "${race[@]}" -modfile "$out/go.mod" -o "$out/check" ./cmd/check) >"$out/log" 2>&1; then
  echo "ERROR property=$id the harness does not build:"; cat "$out/log"; exit 3
fi
mkdir -p "$here/evidence"
if [ "${1:-}" = --replay ]; then
  "$out/check" -mode replay -id "$id" -verif "$here" -replay "$2"; exit $?
fi
"$out/check" -id "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here"
