#!/bin/bash
# Builds the symbolic execution engine and warms the build cache.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
mkdir -p bin && cd engine && go build -o ../bin/verifengine .
