#!/bin/bash
# builds the analyser when it is missing or older than its source
here="$(cd "$(dirname "$0")" && pwd)"
bin="$here/bin/gxcheck"
if [ -x "$bin" ] && [ -z "$(find "$here/gxcheck" -maxdepth 1 -newer "$bin" -print -quit)" ]; then exit 0; fi
mkdir -p "$here/bin"
cd "$here/gxcheck" && GO111MODULE=on GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 go build -o "$bin.$$" . && mv "$bin.$$" "$bin"
