#!/bin/bash
# usage: build.sh COMPONENT OUTFILE    builds a component's simulator against /repo's working tree
# (SIM_REPO overrides the tree, for sensitivity experiments in scratch copies).
set -euo pipefail
verif="$(cd "$(dirname "$0")/.." && pwd)"
repo="${SIM_REPO:-/repo}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp -r "$verif/sim/." "$work/"
cd "$work"
sed -i "s#=> /repo\$#=> $repo#" go.mod
args=()
if [ -x "./cmd/$1/prepare.sh" ]; then
	# A component may need more: an overlay of the standard library's system calls.
	SIM_REPO="$repo" "./cmd/$1/prepare.sh" "$work"
	[ -f overlay.json ] && args+=(-overlay "$work/overlay.json")
fi
go build -tags verif -trimpath "${args[@]}" -o "$2" "./cmd/$1"
