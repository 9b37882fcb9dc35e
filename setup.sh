#!/bin/bash
# Warms the Go build cache; checks rebuild from /repo's working tree anyway.
set -u
dir=$(cd "$(dirname "$0")" && pwd)
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
cd "$dir/mc" && go build -o /dev/null .
cd "$dir/mc" && go build -race -o /dev/null ./race
exit 0
