#!/bin/bash
# Builds the analyzer from /verif/analyzer into /verif/.bin, offline.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3 GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.bin" && cd "$here/analyzer" && exec go build -o "$here/.bin/analyzer" .
