#!/bin/bash
# Builds the symbolic executor offline from the committed sources.
set -eu
cd "$(dirname "$0")"
newest=$(find engine -name '*.go' -newer bin/engine 2>/dev/null | head -1 || true)
if [ -x bin/engine ] && [ -z "$newest" ]; then exit 0; fi
mkdir -p bin
cd engine
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o ../bin/engine .
