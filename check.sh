#!/bin/bash
# check.sh PROPERTY [quick|thorough]: verifies the contracts of a property.
cd "$(dirname "$0")" || exit 2
V=$PWD
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$TIER
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
BIN=$V/.build/vgen
mkdir -p "$V/.build" "$V/evidence"
if [ ! -x "$BIN" ] || [ -n "$(find "$V/vgen" -newer "$BIN" -name '*.go' -print -quit)" ]; then
  (cd "$V/vgen" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOTOOLCHAIN=local go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || { echo "building vgen failed"; exit 2; }
fi
if [ "$1" = build ]; then exit 0; fi
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export PATH=$PATH:/opt/veriftools/bin
exec "$BIN" -prop "$1" -tier "$TIER" -repo /repo -verif "$V" "${@:3}"
