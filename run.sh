#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds the engine and checks one property
# against /repo's current working tree.
set -u
root="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
export GOCACHE="${GOCACHE:-$(go env GOCACHE)}"
mkdir -p "$root/.build"
if ! (cd "$root/engine" && go build -o "$root/.build/vpengine" .) ; then
	echo "the engine does not build" >&2
	exit 2
fi
exec "$root/.build/vpengine" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -root "$root"
