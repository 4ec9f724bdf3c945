#!/bin/bash
# The simulator against the real runtime: a program using many features of the language and of the
# standard library prints the same under every simulated schedule as it does when it really runs.
# usage: selftest.sh [SCHEDULES]
set -e
cd "$(dirname "$0")"
. ./env.sh
T=$(mktemp -d /tmp/verifself.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp -a . "$T/sim"
mkdir "$T/repo"
(cd /repo && tar c --exclude=.git .) | tar x -C "$T/repo"
mkdir -p "$T/repo/cmdDepreciated/goselect-features" "$T/tmp"
cp selftest/features.go.txt "$T/repo/cmdDepreciated/goselect-features/main.go"
cp selftest/world.go.txt "$T/sim/worlds/selftest.go"
sed -i 's/^\tcase "explore":$/\tcase "selftest":\n\t\tselftest(*max, *in)\n\tcase "explore":/' "$T/sim/worlds/core.go"
(cd "$T/repo" && TMPDIR="$T/tmp" go run ./cmdDepreciated/goselect-features >"$T/want")
(cd "$T/sim/tool" && go build -o "$T/verifsim" .)
"$T/verifsim" build "$T/sim" "$T/repo" "$T/harness" "$T/w"
"$T/harness" selftest -max "${1:-300}" -in "$T/want"
