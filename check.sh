#!/bin/bash
# check.sh ID: decides one property on /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
[ -x "$here/bin/gover" ] || bash "$here/setup.sh" || exit 2
exec "$here/bin/gover" -verif "$here" -prop "$1"
