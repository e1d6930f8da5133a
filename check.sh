#!/bin/bash
# Decides one property: builds the simulator from /repo's working tree and runs
# its seeds. usage: check.sh PROPERTY quick|thorough
# Exit 0: held on everything explored. Exit 1: VIOLATION line. Else: trouble.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export VERIF
B=$(mktemp -d "${TMPDIR:-/tmp}/typast-sim.XXXXXX") || exit 2
case $B in /*/typast-sim.*) ;; *) exit 2 ;; esac
trap 'rm -rf "$B"' EXIT
. ./sim/build.sh
race=
case " $(cat sim/race.txt 2>/dev/null) " in *" $1 "*) race=race ;; esac
vbuild "$B" >"$B/build.log" 2>&1 || { cat "$B/build.log" >&2; echo "check.sh: the simulator does not build" >&2; exit 2; }
if [ -n "$race" ]; then
	vbuild "$B" race >"$B/build.log" 2>&1 || { cat "$B/build.log" >&2; echo "check.sh: the race build fails" >&2; exit 2; }
fi
"$B/harness" check "$1" "${2:-quick}" "$VERIF" "$B"
