#!/bin/bash
# Builds the analyzer from the committed, vendored sources (offline).
set -e
cd "$(dirname "$0")/amtcheck"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on
mkdir -p ../bin
go build -o ../bin/amtcheck.$$ .
mv -f ../bin/amtcheck.$$ ../bin/amtcheck
