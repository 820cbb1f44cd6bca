#!/bin/bash
# Warms the Go build cache; every check builds what it needs by itself.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tmp=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cd "$here/mc" && go build -o "$tmp/mc" . || exit 1
exit 0
