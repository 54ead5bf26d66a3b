#!/bin/bash
# Nothing is kept from here: checks rebuild everything. This only warms the Go
# build cache and checks the toolchain.
set -e
cd "$(dirname "$0")/.."
mkdir -p .work evidence
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
(cd harness && go build -o ../.work/drv-setup .)
rm -f .work/drv-setup
java -version >/dev/null 2>&1
echo ok
