#!/bin/bash
# usage: check.sh <property id> [quick|thorough] -- decides one property from /repo's current source
set -u
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || { echo "the checker could not be built"; exit 2; }
tier=${2:-${VERIF_TIER:-quick}}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
exec "$here/.build/watercheck" -repo "${WATER_REPO:-/repo}" -prop "$1" -tier "$tier" -out "$here/evidence" -known "$here/KNOWN_FINDINGS"
