#!/bin/bash
# Fills the build cache: builds the simulator once in every mode.
cd "$(dirname "$0")/.." || exit 1
. tools/build.sh
for mode in normal race asan work; do
	work=$(mktemp -d "${TMPDIR:-/tmp}/vsetup.XXXXXX") || exit 1
	(build_sim "$work" "$mode" && echo "$BUILD_NOTE") || { rm -rf "$work"; exit 1; }
	rm -rf "$work"
done
