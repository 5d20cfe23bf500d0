#!/bin/bash
# check.sh PROPERTY quick|thorough, or: check.sh replay FILE
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" VERIF_REPO="${VERIF_REPO:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
drv=$(mktemp /tmp/verif-driver-XXXXXX) || exit 3
trap 'rm -f "$drv"' EXIT
(cd driver && go build -o "$drv" .) || exit 3
if [ "$1" = replay ] || [ "$1" = build ]; then "$drv" "$1" "$2"; else "$drv" check "$1" "$2"; fi
