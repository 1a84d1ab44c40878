#!/bin/bash
# run.sh ID          build from /repo's working tree and decide property ID
# run.sh build       only build
# run.sh replay FILE build and replay a reported violation
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
b="${VERIF_BUILD:-$here/.build}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 GOWORK=off CGO_ENABLED=1
mkdir -p "$b"
die() { echo "cannot build: $1" >&2; exit 2; }
(cd "$here/instr" && go build -o "$b/instr" .) || die instrumenter
rm -rf "$b/gen.new"
"$b/instr" -repo "$repo" -out "$b/gen.new" -simrt "$here/simrt" -stubs "$here/stubs" || die "instrumented copy"
rm -rf "$b/gen"
mv "$b/gen.new" "$b/gen" || die "instrumented copy"
build() { (cd "$here/sim" && go build "$@" .) || die simulator; }
build -o "$b/sim"
case "${1:-build}" in
build) build -race -o "$b/sim-race" ;;
replay) build -race -o "$b/sim-race"; exec "$b/sim" replay "$2" ;;
*)
	if "$b/sim" needsrace "$1"; then build -race -o "$b/sim-race"; fi
	exec "$b/sim" check "$1"
	;;
esac
