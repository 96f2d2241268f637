#!/bin/bash
# usage: replay.sh REPLAY-FILE     repeats a recorded violation against /repo's current tree.
verif="$(cd "$(dirname "$0")/.." && pwd)"
file="$(readlink -f "$1")"
prop="$(sed -n 's/^ "property": "\(.*\)",$/\1/p' "$file")"
comp="$(sed -n "s/^.*$prop.*) comp=\(.*\);;\$/\1/p" "$verif/tools/check.sh")"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
"$verif/tools/build.sh" "$comp" "$work/sim" || exit 4
"$work/sim" replay "$file"
