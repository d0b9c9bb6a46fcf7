#!/bin/bash
# Runs the demonstration beside this script against the source tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off HOME="${HOME:-/root}"
w="$(mktemp -d /tmp/demo-XXXXXX)" || exit 3
trap 'rm -rf "$w"' EXIT
cp "$here"/*.go "$here/go.sum" "$w/" || exit 3
cat > "$w/go.mod" <<M
module demo

go 1.17

require fast-ksw v0.0.0

require (
	golang.org/x/crypto v0.0.0-20220331220935-ae2d96664a29 // indirect
	golang.org/x/sys v0.0.0-20210615035016-665e8c7367d1 // indirect
)

replace fast-ksw => $repo
M
cd "$w" && go build -o demo . || exit 3
./demo
