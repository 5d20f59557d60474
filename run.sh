#!/bin/bash
# usage: run.sh check ID | replay FILE | setup
# Builds the driver from /verif/sim and the simulation from /repo's working tree.
set -u
cd "$(dirname "$0")" || exit 2
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export VERIF_DIR="${VERIF_DIR:-$PWD}"
B="${VERIF_BUILD:-$VERIF_DIR/.build}"
mkdir -p "$B" || exit 2
V="$B/vsim.$$"
( cd "$VERIF_DIR/sim" && GOFLAGS= CGO_ENABLED=0 GOCACHE="$B/gocache" go build -o "$V" ./cmd/vsim ) || exit 2
case "${1:-}" in
setup) "$V" build ;;
*) "$V" "$@" ;;
esac
rc=$?
rm -f "$V"
exit $rc
