#!/bin/bash
# check.sh ID | setup: builds the analyser from the committed sources and
# decides property ID on /repo's working tree.
V=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LC_ALL=C.UTF-8
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x $g/go ] && export PATH=$g:$PATH && break; done
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
unset GOROOT GOFLAGS
B=$(mktemp -d "${TMPDIR:-/tmp}/vp.XXXXXX") || exit 3
trap 'rm -rf "$B"' EXIT
[ -n "$GOCACHE" ] || export GOCACHE=$HOME/.cache/go-build
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$B/cache
fail() { # the analyser itself cannot be built: nothing is decided
  mkdir -p "$V/evidence"
  echo "$1" >&2
  exit 3
}
(cd "$V/tool" && GOFLAGS=-mod=vendor go build -o "$B/vp" ./cmd/vp) || fail "the analyser does not build"
[ "$1" = setup ] && exit 0
"$B/vp" -root "${VP_ROOT:-/repo}" -verif "$V" "$@"
