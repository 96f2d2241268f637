#!/bin/bash
# Builds every simulator once, which also warms the Go build cache.
set -e
verif="$(cd "$(dirname "$0")/.." && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
for d in "$verif"/sim/cmd/*/; do
	"$verif/tools/build.sh" "$(basename "$d")" "$work/$(basename "$d")"
done
