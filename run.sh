#!/bin/bash
# run.sh PROPERTY TIER: builds the engine from /verif/engine if needed and runs one check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export VERIF_DIR=$here
bin=$here/engine/vengine
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$bin" -print -quit)" ]; then
    (cd "$here/engine" && CGO_ENABLED=0 go build -o vengine .) || exit 2
fi
prop=$1; tier=${2:-quick}; shift; [ $# -gt 0 ] && shift
exec "$bin" check -prop "$prop" -tier "$tier" "$@"
