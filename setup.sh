#!/bin/bash
# Builds the engine and checks that the solvers are there.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p .build evidence
(cd engine && go build -o ../.build/vpengine .)
command -v z3-new >/dev/null || command -v z3 >/dev/null
(cd harness && go build ./h ./vp ./shim/... ./sshim/...)
echo ready
