#!/bin/bash
# check.sh PROPERTY TIER: decides one property on /repo's working tree.
set -e
cd "$(dirname "$(readlink -f "$0")")"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
mkdir -p .build
( flock 9; cd tool && go build -trimpath -o ../.build/vtool . || exit 2 ) 9>.build/tool.lock
exec ./.build/vtool check "$1" "${2:-${VERIF_TIER:-quick}}"
