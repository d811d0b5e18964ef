#!/bin/bash
# Warms the build caches; the checks build whatever they need themselves.
cd "$(dirname "$0")/engine" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
go build -o /dev/null . || exit 1
