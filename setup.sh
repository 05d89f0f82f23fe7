#!/bin/bash
# Builds the verifier from the committed files.
set -e
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
cd "$(dirname "$0")/gover"
mkdir -p ../bin
go build -o ../bin/gover .
