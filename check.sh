#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the simulator from /repo's current working tree in a scratch directory and searches for a
# violation of PROPERTY. Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
bash "$here/build.sh" "$out" >"$out/log" 2>&1 || { cat "$out/log" >&2; echo "check.sh: the simulator does not build" >&2; exit 2; }
race=()
if "$out/simrun" needsrace -prop "$prop" 2>/dev/null; then
	bash "$here/build.sh" "$out/race" race >"$out/log" 2>&1 || { cat "$out/log" >&2; echo "check.sh: the race build does not build" >&2; exit 2; }
	race=(-racebin "$out/race/simrun")
fi
mkdir -p "$here/evidence" "$here/replays"
"$out/simrun" check -prop "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$prop.json" \
	-replays "$here/replays" -known "$here/known-findings.txt" "${race[@]}"
