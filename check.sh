#!/bin/bash
# check.sh ID quick|thorough        run one check against /repo's current tree
# check.sh ID replay FILE           re-execute one recorded violation
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=$2
S=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
race=
grep -q "^$id\$" "$here/mc/race-checks" 2>/dev/null && race=-race
if ! bash "$here/mc/build.sh" "$S" $race >"$S/build.log" 2>&1; then
	echo "check.sh: could not build the checker against /repo" >&2
	tail -40 "$S/build.log" >&2
	exit 2
fi
export MC_ROOT="$here"
if [ "$tier" = replay ]; then
	"$S/bin" replay "$3"
else
	"$S/bin" run "$id" "$tier"
fi
