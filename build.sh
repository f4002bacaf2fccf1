#!/bin/bash
# builds the checker from /verif/checker into /verif/.build (git-ignored)
set -u
here=$(cd "$(dirname "$0")" && pwd)
bin=$here/.build/watercheck
if [ -x "$bin" ] && [ -z "$(find "$here/checker" -newer "$bin" -type f -print -quit)" ]; then exit 0; fi
mkdir -p "$here/.build"
cd "$here/checker" || exit 2
GO=go1.27.3
command -v $GO >/dev/null 2>&1 || GO=go
env GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod $GO build -o "$bin.tmp" . && mv "$bin.tmp" "$bin"
