#!/bin/bash
# check.sh [--setup | --replay FILE | PROPERTY]: builds the simulator from the
# current tree of /repo and runs it.
cd "$(dirname "$0")" || exit 3
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
[ -n "$HOME" ] || export GOCACHE="$PWD/.build/gocache"
mkdir -p .build || exit 3
(
	flock 9
	cd sim/driver && go build -o ../../.build/driver.new . && mv ../../.build/driver.new ../../.build/driver
) 9>.build/lock0 || exit 3
exec .build/driver "$@"
