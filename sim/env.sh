# the toolchain of /opt/vp/env.sh, when it is there
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
[ -w "${GOCACHE:-/root/.cache/go-build}" ] || export GOCACHE="${TMPDIR:-/tmp}/verifsim-gocache"
