#!/bin/bash
# usage: replay.sh FILE: rebuilds /repo's working tree under the simulator and replays the run
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh" || exit 2
file=$(realpath "${1:?replay file}")
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
(cd "$here/tool" && go build -o "$scratch/verifsim" .) || exit 2
"$scratch/verifsim" build "$here" "${VERIF_REPO:-/repo}" "$scratch/harness" "$scratch/w" || exit 2
"$scratch/harness" replay -in "$file" -out "$scratch/out.json"
