#!/usr/bin/env bash
# on.sh <copy of the repository> <property>...: development aid that runs checks against another tree,
# with evidence in a scratch folder. Registered checks always use check.sh, that is /repo.
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
repo=$1; shift
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-on-XXXXXX") || exit 3
trap 'rm -rf -- "$out"' EXIT
mkdir "$out/verif"; cp "$here/known_findings.jsonl" "$out/verif/"; cp -r "$here/corpus" "$out/verif/"
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" >"$out/go.mod"; cp "$here/harness/go.sum" "$out/"
rc=0
for id in "$@"; do
  race=(); export CGO_ENABLED=0
  if [ "$id" = C11 ] || [ "$id" = C20 ]; then race=(-race); export CGO_ENABLED=1; fi
  (cd "$here/harness" && go build "${race[@]}" -modfile "$out/go.mod" -o "$out/check" ./cmd/check) || exit 3
  "$out/check" -id "$id" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$out/verif" >"$out/log" 2>&1 || rc=1
  grep -v '^KNOWN' "$out/log" | head -"${LINES_MAX:-3}" | cut -c1-"${COLS_MAX:-300}"
done
exit $rc
