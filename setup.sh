#!/bin/bash
# Warms the Go build cache; every check rebuilds what it needs from /repo's working tree anyway.
cd "$(dirname "$0")/mc" || exit 2
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
go build -o /dev/null ./cmd/zkcheck
