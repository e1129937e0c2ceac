#!/bin/bash
# Builds the harness once (offline), to warm the build cache.
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off
: "${HOME:=/root}"; export HOME
mkdir -p "$here/.build" && cd "$here/harness" || exit 1
go vet . && go build -o "$here/.build/vh" . && "$here/.build/vh" list all | tr '\n' ' '
