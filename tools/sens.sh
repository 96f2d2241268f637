#!/bin/bash
# usage: sens.sh (PATCH|-REVERT-COMMIT) PROPERTY...   sensitivity experiment in a scratch copy of /repo
verif="$(cd "$(dirname "$0")/.." && pwd)"
t="$(mktemp -d /tmp/sens-XXXXXX)"
trap 'rm -rf "$t"' EXIT
git -C /repo worktree prune
cp -a /repo/. "$t/"
case "$1" in
-*) (cd "$t" && git -c user.name=x -c user.email=x@x revert -n "${1#-}" >/dev/null 2>&1) || { echo "$1: CONFLICT"; git -C "$t" diff | head -60; exit 5; };;
*) git -C "$t" apply "$(readlink -f "$1")" || exit 5;;
esac
what="$1"; shift
(cd "$t" && GOFLAGS=-mod=mod go build ./... ) || { echo "$what: DOES NOT COMPILE"; exit 5; }
mkdir -p "$t/v"
cp "$verif/known_findings" "$t/v/" 2>/dev/null
for p in "$@"; do
	out="$(SIM_REPO="$t" VERIF_SENS_DIR="$t/v" "$verif/tools/check.sh" "$p" 2>&1)"; rc=$?
	echo "$what $p rc=$rc $(echo "$out" | grep -A1 -E '^violation class|simulator error|ok:' | head -2 | tr '\n' ' ' | cut -c1-230)"
done
