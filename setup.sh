#!/bin/bash
# Warm the build cache: compile every check against /repo's working tree.
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
cd "$(dirname "$0")/harness" || exit 2
d=$(mktemp -d) && trap 'rm -rf "$d"' EXIT
go build -o "$d/" ./cmd/...
