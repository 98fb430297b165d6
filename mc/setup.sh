#!/bin/bash
# Builds the model checker once from the committed files (also warms the Go build cache where that survives).
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d "${TMPDIR:-/tmp}/mcsetup.XXXXXX") || exit 2
trap 'rm -rf "$S"' EXIT
bash "$here/build.sh" "$S" >"$S/log" 2>&1 || { tail -40 "$S/log" >&2; exit 1; }
