#!/bin/bash
# Builds the analyzer into /verif/.bin (ignored by git) when it is missing or older than its sources.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS="-mod=vendor -buildvcs=false"
bin=$here/.bin/diskcheck
if [ -x "$bin" ] && [ -z "$(find "$here/analyzer" -newer "$bin" -type f -print -quit)" ]; then exit 0; fi
mkdir -p "$here/.bin" || exit 1
cd "$here/analyzer" && go build -o "$bin.$$" ./cmd/diskcheck && mv "$bin.$$" "$bin"
