#!/bin/sh
# build.sh: builds the analyser from the committed sources (offline, vendored).
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin" "$here/evidence"
cd "$here/checker" && GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off go build -o "$here/bin/tokucheck.$$" . && mv "$here/bin/tokucheck.$$" "$here/bin/tokucheck"
