#!/bin/bash
# check.sh ID            decide property ID on /repo's current working tree (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE   run one saved case
# Exit 0: held on everything explored.  1: VIOLATION line.  2: could not be decided.
DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=$DIR
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
BIN=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 2
trap 'rm -rf "$BIN"' EXIT
RACE=
if [ "$1" = C33 ] || { [ "$1" = replay ] && grep -q '"property": "C33"' "$2"; }; then
  (cd "$DIR/harness" && go build -race -o "$BIN/harness" .) >"$BIN/log" 2>&1 && RACE=1 # without a C compiler there is no race detector
fi
if [ -z "$RACE" ] && ! (cd "$DIR/harness" && go build -o "$BIN/harness" .) >"$BIN/log" 2>&1; then
  cat "$BIN/log" >&2; echo "ERROR: the harness does not build against /repo" >&2; exit 2
fi
if [ "$1" = C32 ] || [ "$1" = replay ]; then
  if ! (cd /repo && go build -o "$BIN/ouro" ./cmd/ouro) >"$BIN/log" 2>&1; then
    cat "$BIN/log" >&2; echo "ERROR: cmd/ouro does not build" >&2; exit 2
  fi
  export VERIF_OURO=$BIN/ouro
fi
if [ "$VERIF_TIER" = thorough ] && [ "$1" != C33 ] && (cd "$DIR/harness" && go test -c -vet=off -fuzz=FuzzSub -o "$BIN/fuzz" .) >"$BIN/log" 2>&1; then
  export VERIF_FUZZ=$BIN/fuzz # coverage-guided search, on top of the random one
fi
case "$1" in
  replay) "$BIN/harness" replay "$2"; exit $? ;;
  list) "$BIN/harness" list; exit $? ;;
  C[0-9]*) "$BIN/harness" check "$1"; exit $? ;;
  *) echo "usage: check.sh ID | replay FILE | list" >&2; exit 2 ;;
esac
