#!/bin/bash
# try.sh REPODIR ID...: run checks against another tree, from a scratch copy.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
repo="$1"; shift
w="$(mktemp -d /tmp/vtry.XXXXXX)"
trap 'rm -rf "$w"' EXIT
for d in instr sim simrt stubs run.sh; do cp -a "$here/$d" "$w/"; done
for id in "$@"; do
	out="$(VERIF_REPO="$repo" VERIF_SECS="${VERIF_SECS:-25}" timeout 600 "$w/run.sh" "$id" 2>&1)"
	rc=$?
	echo "== $id rc=$rc"
	echo "$out" | tail -n "${TAIL:-30}"
done
