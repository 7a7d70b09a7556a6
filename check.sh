#!/bin/bash
# check.sh PROPERTY TIER: builds the analyzer and decides one property for /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
bin="$here/.bin/flowcheck"
"$here/build.sh" >/dev/null || { echo "the analyzer does not build"; exit 2; }
exec "$bin" -repo "${FLOW_REPO:-/repo}" -verif "$here" -property "$1" -tier "$2"
