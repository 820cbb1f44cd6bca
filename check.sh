#!/bin/bash
# Usage: check.sh <property> [quick|thorough]   (run from anywhere)
# Exit 0: held. Exit 1 and a VIOLATION line: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tmp=$(mktemp -d /tmp/verifmc.XXXXXX) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
(cd "$here/mc" && go build -o "$tmp/mc" .) || { echo "check.sh: cannot build the checker against /repo" >&2; exit 2; }
tier=${2:-${VERIF_TIER:-quick}}
"$tmp/mc" -prop "$1" -tier "$tier" -verif "$here" -repo /repo -tmp "$tmp" ${MCFLAGS:-}
rc=$?
exit $rc
