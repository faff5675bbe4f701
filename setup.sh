#!/bin/bash
# Builds the tool and a first simulator from the committed files.
set -e
cd "$(dirname "$(readlink -f "$0")")"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
mkdir -p .build
( cd tool && go build -trimpath -o ../.build/vtool . )
./.build/vtool build
