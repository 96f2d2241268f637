#!/bin/bash
# usage: determinism.sh [RUNS]     for every property, the event-log hashes of RUNS runs have to be
# the same in one process, in four processes, and with other memory and scheduling conditions.
verif="$(cd "$(dirname "$0")/.." && pwd)"
n="${1:-2000}"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
bad=0
for d in "$verif"/sim/cmd/*/; do
	c="$(basename "$d")"
	"$verif/tools/build.sh" "$c" "$work/$c" || exit 4
	for p in $(sed -n "s/^\(C[C0-9|]*\)) comp=$c;;\$/\1/p" "$verif/tools/check.sh" | tr '|' ' '); do
		"$work/$c" hash "$p" 77 0 "$n" >"$work/one"
		GOMAXPROCS=1 GOGC=20 "$work/$c" hash "$p" 77 0 "$n" >"$work/two"
		for k in 0 1 2 3; do
			(cd "$work" && "$work/$c" hash "$p" 77 $((k * n / 4)) $((n / 4)) >"$work/part$k") &
		done
		wait
		cat "$work"/part[0-3] >"$work/three"
		if cmp -s "$work/one" "$work/two" && cmp -s "$work/one" "$work/three" && [ -s "$work/one" ]; then
			echo "$p: $n runs identical, $(sort -u "$work/one" | wc -l) different lines"
		else
			echo "$p: DIFFERENT"; bad=1
		fi
	done
done
exit $bad
