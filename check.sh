#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's current source.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3 GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off
here=$(cd "$(dirname "$0")" && pwd)
[ -n "$2" ] && export VERIF_TIER=$2
bash "$here/setup.sh" >&2 || { echo "the analyzer does not build"; exit 2; }
cd "$here" && exec "$here/.bin/analyzer" -property "$1" -verif "$here" -repo /repo
