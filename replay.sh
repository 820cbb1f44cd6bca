#!/bin/bash
# Usage: replay.sh FILE   re-executes the violation recorded in FILE.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tmp=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
file=$(realpath "$1")
(cd "$here/mc" && go build -o "$tmp/mc" .) || exit 2
"$tmp/mc" -replay "$file" -verif "$here" -repo /repo -tmp "$tmp"
