#!/bin/bash
# Runs the demonstration against the flatgeobuf module in the working
# directory: exit 0 if it behaves, nonzero if it does not.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here"/*.go "$t/"
cp "$repo/go.sum" "$t/"
cat > "$t/go.mod" <<E
module demo

go 1.20

require (
	github.com/gogama/flatgeobuf v0.0.0
	github.com/google/flatbuffers v23.5.26+incompatible
)

replace github.com/gogama/flatgeobuf => $repo
E
cd "$t"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o demo .
timeout 120 ./demo
