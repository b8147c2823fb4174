#!/bin/sh
# Exit 0 when the property holds on this input, 1 when it does not. Run with cwd /repo.
cd "$(dirname "$0")/demo" || exit 3
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
exec go run .
