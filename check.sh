#!/bin/bash
# check.sh PROPERTY TIER: decide one property of /repo's current working tree.
set -u
dir="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export GOCACHE="${GOCACHE:-${HOME:-/root}/.cache/go-build}"
bin="$(mktemp -d)" || exit 2
trap 'rm -rf "$bin"' EXIT
(cd "$dir/engine" && go build -o "$bin/symgo" .) || exit 2
"$bin/symgo" -verif "$dir" -prop "$1" -tier "${2:-quick}" "${@:3}"
