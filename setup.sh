#!/bin/bash
# Builds the simulator once (plain and race-detector build), to show that it builds.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
set -e
bash "$here/build.sh" "$out"
bash "$here/build.sh" "$out/race" race
