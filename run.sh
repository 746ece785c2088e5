#!/bin/bash
# run.sh ID...: builds the checker from /verif/checker when needed and decides the properties on /repo's current source.
# run.sh --build: only builds.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 GOWORK=off
export HOME="${HOME:-/root}"
if ! command -v go >/dev/null 2>&1; then export PATH="$PATH:/usr/local/go/bin:/opt/veriftools/go1.27.3/bin"; fi
if [ -z "${GOCACHE:-}" ]; then
  c="$(go env GOCACHE 2>/dev/null)"
  if [ -z "$c" ] || ! mkdir -p "$c" 2>/dev/null || ! [ -w "$c" ]; then export GOCACHE="$here/.bin/gocache"; fi
fi
mkdir -p "$here/.bin"
bin="$here/.bin/gofrecheck"
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" \( -name '*.go' -o -name go.mod \) -print -quit)" ]; then
  (cd "$here/checker" && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || { echo "the checker does not build" >&2; exit 2; }
fi
[ "${1:-}" = --build ] && exit 0
cd "$here" && exec "$bin" check -out "$here" -tier "${VERIF_TIER:-quick}" "$@"
