#!/bin/bash
# setup.sh: builds the engine once (run.sh does it too when a source is newer).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
cd "$here/engine"
CGO_ENABLED=0 go build -o vengine .
