#!/bin/bash
# usage: run.sh ID [tier] | run.sh replay FILE
# Builds the harness against the current tree of /repo and runs one check.
# Exit: 0 held, 1 violation, 2 inconclusive, 3 the check couldn't run.
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here"
export GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=readonly
: "${HOME:=/root}"; export HOME
mkdir -p "$here/.build" || exit 3
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
race=
file=
if [ "$id" = replay ]; then file="$2"; id=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' "$file"); fi
case "$id" in D18) race=-race; export CGO_ENABLED=1;; esac
bin="$here/.build/vh-$id-$$"
trap 'rm -f "$bin" "$bin-tool"' EXIT
cd "$here/harness" || exit 3
go build $race -o "$bin" . || { echo "the harness doesn't build"; exit 3; }
if [ "$id" = S03 ]; then
  export VERIF_TOOL="$bin-tool"
  go build -o "$VERIF_TOOL" github.com/arl/go-detour/cmd/recast || { echo "the tool doesn't build"; exit 3; }
fi
if [ -n "$file" ]; then "$bin" replay "$file"; exit $?; fi
"$bin" check "$id" "$tier" "$seed"
exit $?
