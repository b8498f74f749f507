#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the simulator from the working tree of /repo and runs the check.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
. "$VERIF/tools/build.sh"
mode=normal
case $prop in C03) mode=race ;; C06) mode=asan ;; C12) mode=work ;; esac
work=$(mktemp -d "${TMPDIR:-/tmp}/vsim.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
build_sim "$work" "$mode" || { echo "ERROR: the simulator cannot be built from /repo"; exit 2; }
TMPDIR=$work "$work/sim" check -prop "$prop" -tier "$tier" -seed "$seed" -out "$VERIF/evidence" \
	-build "$BUILD_NOTE" -stmts "$work/ov/stmts.json" -known "$VERIF/known-findings"
rc=$?
exit $rc
