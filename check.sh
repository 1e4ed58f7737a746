#!/bin/bash
# check.sh ID: builds the analyser and decides one property on /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
repo="${VERIF_REPO:-/repo}"
bin="$here/.bin/verif"
mkdir -p "$here/.bin"
# (re)build when sources are newer than the binary
if [ ! -x "$bin" ] || [ -n "$(find "$here/analyzer" -name '*.go' -newer "$bin" -print -quit)" ]; then
  (cd "$here/analyzer" && go build -o "$bin.$$" ./cmd/verif && mv "$bin.$$" "$bin") || { echo "cannot build the analyser" >&2; exit 2; }
fi
exec "$bin" -repo "$repo" -root "$here" "$@"
