#!/bin/bash
# Checks that the simulator builds around the current tree (every check builds it again).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh" || exit 2
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
(cd "$here/tool" && go build -o "$scratch/verifsim" .) || exit 2
"$scratch/verifsim" build "$here" /repo "$scratch/harness" "$scratch/w"
