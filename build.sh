#!/bin/bash
# Builds the verifier, offline, from the committed sources.
set -e
cd "$(dirname "$0")/gov"
mkdir -p ../bin
GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOWORK=off go build -o ../bin/gov.tmp.$$ .
mv ../bin/gov.tmp.$$ ../bin/gov
