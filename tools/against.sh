#!/bin/bash
# Development only: against.sh DIR ID [cases]  runs a check on a scratch copy DIR of /repo.
here="$(cd "$(dirname "$0")/.." && pwd)"
dir="$1"; id="$2"; n="$3"
export VERIF_DIR="$(mktemp -d /tmp/against.XXXXXX)" VERIF_REPO="$dir"
cp "$here/KNOWN_FINDINGS.txt" "$VERIF_DIR/"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=*
sed "s#=> /repo#=> $dir#" "$here/harness/go.mod" > "$VERIF_DIR/go.mod"; cp "$here/harness/go.sum" "$VERIF_DIR/go.sum"
race=; [ "$id" = D18 ] && race=-race
cd "$here/harness" && go build $race -modfile "$VERIF_DIR/go.mod" -o "$VERIF_DIR/vh" . || { rm -rf "$VERIF_DIR"; exit 3; }
if [ "$id" = S03 ]; then export VERIF_TOOL="$VERIF_DIR/tool"; go build -modfile "$VERIF_DIR/go.mod" -o "$VERIF_TOOL" github.com/arl/go-detour/cmd/recast || exit 3; fi
[ -n "$n" ] && export VERIF_CASES="$n"
"$VERIF_DIR/vh" check "$id" quick "${VERIF_SEED:-1}"
rc=$?
rm -rf "$VERIF_DIR"
exit $rc
