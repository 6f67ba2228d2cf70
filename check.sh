#!/bin/bash
# check.sh ID [thorough] run the check of property ID (tier from VERIF_TIER unless given)
# check.sh replay ID WORKLOAD IDX   re-run one case verbosely
# check.sh build         only build
# Builds the harness against /repo's current working tree every time.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
unset GODEBUG GOGC GOEXPERIMENT 2>/dev/null
REPO="${VERIF_REPO:-/repo}"
export VERIF_ROOT="$V" VERIF_SEED="${VERIF_SEED:-1}" VERIF_REPO="$REPO"
B="${VERIF_BUILD:-$V/build}"
mkdir -p "$B" || exit 3
OV="$B/overlay.$$.json"
trap 'rm -f "$OV" "$B/harness.$$"' EXIT
# the repository has no go.mod; one is laid over it
printf '{"Replace":{"%s/go.mod":"%s/harness/repo.go.mod","%s/go.sum":"%s/harness/repo.go.sum"}}' "$REPO" "$V" "$REPO" "$V" > "$OV"
MODFILE=()
if [ "$REPO" != /repo ]; then
  sed "s#=> /repo#=> $REPO#" "$V/harness/go.mod" > "$B/alt.$$.mod"; cp "$V/harness/go.sum" "$B/alt.$$.sum"
  MODFILE=(-modfile "$B/alt.$$.mod")
  trap 'rm -f "$OV" "$B/harness.$$" "$B/alt.$$.mod" "$B/alt.$$.sum"' EXIT
fi
build() { # $1 output, rest flags
  local out="$1"; shift
  (cd "$V/harness" && go build -mod=mod -overlay "$OV" "${MODFILE[@]}" "$@" -o "$out" .)
}
case "${1:-}" in
  setup)
    build "$B/harness.$$" && build "$B/harness.$$" -race; exit $?;;
  build) build "$B/harness"; exit $?;;
  replay) shift; RF=(); [ "$1" = C12 ] && RF=(-race)
    build "$B/harness.$$" "${RF[@]}" || exit 3
    "$B/harness.$$" one "$@"; exit $?;;
  *)
    [ "${2:-}" = thorough ] && export VERIF_TIER=thorough
    RF=(); [ "${1:-}" = C12 ] && RF=(-race)
    build "$B/harness.$$" "${RF[@]}" || { echo "build failed"; exit 3; }
    "$B/harness.$$" run "$1"; exit $?;;
esac
