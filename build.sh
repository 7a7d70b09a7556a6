#!/bin/bash
# Builds the analyzer from the committed sources (vendored dependencies, no network).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/.bin"
cd "$here/checker"
GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor go build -o "$here/.bin/flowcheck" .
