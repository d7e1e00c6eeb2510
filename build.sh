#!/bin/bash
# Builds the analyser into .build/ (offline) unless it is there and current.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off GONOSUMDB='*' CGO_ENABLED=0
cd "$here/tools/uipcheck"
mkdir -p "$here/.build" "$here/evidence"
go build -o "$here/.build/uipcheck" .
