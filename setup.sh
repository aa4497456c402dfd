#!/bin/bash
# Builds the checker once, so that the build cache is warm
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 2
mkdir -p ../build
go build -o ../build/mc.setup ./cmd/mc && rm -f ../build/mc.setup
# and the packages that the exploration of schedules needs
CGO_ENABLED=1 go build -race -o ../build/mc.setup ./cmd/mc && rm -f ../build/mc.setup
