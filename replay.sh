#!/bin/bash
# usage: replay.sh FILE [-v]
# Rebuilds the simulator from /repo's current working tree and re-executes a replay file.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-replay.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
mode=
grep -q '"race_build": true' "$1" && mode=race
bash "$here/build.sh" "$out" $mode >"$out/log" 2>&1 || { cat "$out/log" >&2; exit 2; }
GORACE="exitcode=0 atexit_sleep_ms=0 history_size=3" "$out/simrun" replay "$@"
