#!/bin/bash
# setup.sh: build the analyser from the committed sources, offline.
set -eu
cd "$(dirname "$0")"
here=$(pwd)
mkdir -p bin evidence
export GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOTOOLCHAIN=local
export HOME=${HOME:-/root} GOCACHE=${GOCACHE:-/root/.cache/go-build}
if [ ! -x bin/starpccheck ] || [ -n "$(find tool -newer bin/starpccheck -name '*.go' -o -newer bin/starpccheck -name 'go.*' | head -1)" ]; then
	(cd tool && go build -o "$here/bin/starpccheck.$$" . && mv "$here/bin/starpccheck.$$" "$here/bin/starpccheck")
fi
