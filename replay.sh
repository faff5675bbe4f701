#!/bin/bash
# replay.sh FILE: replays a recorded violation against /repo's working tree.
set -e
f="$(readlink -f "$1")"
cd "$(dirname "$(readlink -f "$0")")"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
mkdir -p .build
( cd tool && go build -trimpath -o ../.build/vtool . )
exec ./.build/vtool replay "$f"
