#!/bin/bash
# run.sh <property> quick|thorough: builds the checker from the current
# trees of /verif and /repo, and runs one check
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 2
export VERIF_ROOT="$(cd .. && pwd)"
mkdir -p ../build
bin="../build/mc.$$"
go build -o "$bin" ./cmd/mc || { echo "build failed"; rm -f "$bin"; exit 2; }
TZ=UTC "$bin" run "$1" "${2:-quick}"
rc=$?
rm -f "$bin"
exit $rc
