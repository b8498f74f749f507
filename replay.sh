#!/bin/bash
# usage: replay.sh FILE
# Executes a recorded violation again, on a build of the current tree of /repo.
file=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
. tools/build.sh
mode=$(sed -n 's/^ "build": "\([a-z]*\)".*/\1/p' "$file")
work=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
build_sim "$work" "${mode:-normal}" || { echo "ERROR: the simulator cannot be built from /repo"; exit 2; }
TMPDIR=$work "$work/sim" replay "$file"
