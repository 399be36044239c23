#!/bin/bash
# Builds the checker from its vendored source; needs no network.
set -e
cd "$(dirname "$0")/checker"
mkdir -p ../bin
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o ../bin/urncheck .
