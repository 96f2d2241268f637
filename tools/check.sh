#!/bin/bash
# usage: check.sh PROPERTY     builds the simulator for a property and runs its batch.
# VERIF_SEED and VERIF_TIER (quick|thorough) select what's explored.
# Exit 0: held; 1: VIOLATION; anything else: the check itself failed.
verif="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_DIR="${VERIF_SENS_DIR:-$verif}"
case "$1" in
C01|C02|C03|C04|C05) comp=cache;;
C06|C07|C08|C09|C10) comp=stream;;
C11|C12|C13|C14|C15) comp=compress;;
C16) comp=cli;;
C17|C18|C19|C20|C21|C22|C23|C24|C36|C37) comp=driver;;
C25|C26|C27|C28) comp=fat8;;
C29|C30|C31|C32|C38) comp=fat;;
*) echo "no check for $1" >&2; exit 3;;
esac
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
if ! "$verif/tools/build.sh" "$comp" "$work/sim" >"$work/log" 2>&1; then
	cat "$work/log" >&2
	echo "the simulator doesn't build against the current tree" >&2
	exit 4
fi
"$work/sim" run "$1"
