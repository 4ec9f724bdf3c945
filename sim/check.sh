#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [more flags of "verifsim check"]
# Builds the simulator around /repo's working tree in a scratch directory and explores.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh" || exit 2
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
shift $(( $# < 2 ? $# : 2 ))
scratch=$(mktemp -d "${TMPDIR:-/tmp}/verifsim.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
(cd "$here/tool" && go build -o "$scratch/verifsim" .) || exit 2
"$scratch/verifsim" check -prop "$prop" -tier "$tier" -sim "$here" -repo "${VERIF_REPO:-/repo}" -verif "${VERIF_OUT:-$(dirname "$here")}" -scratch "$scratch/w" "$@"
