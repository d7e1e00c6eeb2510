#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_TIER and VERIF_SEED from the environment)
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || exit 2
export HOME=${HOME:-/root} GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off CGO_ENABLED=0
exec "$here/.build/uipcheck" check "$1" "${UIPREPO:-/repo}" "$here"
