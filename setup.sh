#!/bin/bash
# Builds the symbolic execution engine from the committed sources (offline).
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/vxe.tmp.$$ .
mv ../bin/vxe.tmp.$$ ../bin/vxe
