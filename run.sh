#!/bin/bash
# run.sh PROPERTY: builds the analyzer from its committed sources and decides one property of /repo's working tree.
export HOME="${HOME:-/root}" PATH=/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
if ! (cd "$here/analyzer" && GOFLAGS=-mod=vendor go build -o "$tmp/analyzer" .) >"$tmp/log" 2>&1; then
	cat "$tmp/log"
	echo "the analyzer does not build"
	exit 2
fi
cd "$here" || exit 2
GOFLAGS= "$tmp/analyzer" -prop "$1" -repo "${VERIF_REPO:-/repo}" -verif "$here"
