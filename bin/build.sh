#!/bin/bash
# Builds the explorer against /repo's current working tree.
#   bin/build.sh            -> prints the path of the binary
# The harness sources are laid over /repo/zz_verif_mc (nothing is written in
# /repo); the binary goes to /verif/build.
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOPROXY=off
mkdir -p "$V/build" || exit 2
O=$(realpath -m "${1:-$V/build/mc}")
OV=$(mktemp "$V/build/overlay.XXXXXX") || exit 2
ID=
trap 'rm -rf "$OV" ${ID:+"$ID"}' EXIT
RACE=
if [ -n "$INSTR" ]; then
  # instrumented build: a scheduling point before every statement, race detector on
  ID=$(mktemp -d "$V/build/instr.XXXXXX") || exit 2
  RACE=-race
  export CGO_ENABLED=1
  (cd "$V/instr" && GO111MODULE=off GOFLAGS= go build -o "$ID/instr" main.go) 1>&2 || exit 2
  "$ID/instr" "$REPO" "$ID" > "$ID/lines" || exit 2
fi
{
  printf '{"Replace": {\n "%s/go.mod": "%s/mod/go.mod"' "$REPO" "$V"
  printf ',\n "%s/go.sum": "%s/mod/go.sum"' "$REPO" "$V"
  for f in "$V"/mc/*.go; do
    printf ',\n "%s/zz_verif_mc/%s": "%s"' "$REPO" "$(basename "$f")" "$f"
  done
  printf ',\n "%s/zz_sched/sched.go": "%s/sched/sched.go"' "$REPO" "$V"
  [ -n "$ID" ] && cat "$ID/lines"
  printf '\n}}\n'
} > "$OV"
export GOFLAGS="-overlay=$OV -modfile=$V/mod/go.mod -mod=readonly"
cd "$REPO" || exit 2
go build $RACE -o "$O.$$" ./zz_verif_mc 1>&2 || { rm -f "$O.$$"; exit 2; }
mv -f "$O.$$" "$O"
echo "$O"
