#!/bin/bash
# Checks that the harness builds offline; every check builds again from /repo's working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
mkdir -p "$here/evidence/replay"
cd "$here/harness" && go build -o /dev/null .
