#!/bin/bash
# usage: check.sh <property id>; builds the analyzer (from committed, vendored source) when needed and decides the property on /repo
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off CGO_ENABLED=0
mkdir -p "$here/bin" "$here/evidence"
bin="$here/bin/opcuaverif"
stamp="$here/bin/stamp"
want="$(cat "$here"/analyzer/*.go "$here"/analyzer/go.mod | sha256sum)"
if [ ! -x "$bin" ] || [ "$(cat "$stamp" 2>/dev/null)" != "$want" ]; then
  (cd "$here/analyzer" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin" && echo "$want" > "$stamp") || { echo "cannot build the analyzer"; exit 3; }
fi
[ "${1:-}" = "--build" ] && exit 0
exec "$bin" -property "$1" -repo "${VERIF_REPO:-/repo}" -verif "$here"
