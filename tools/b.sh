#!/bin/sh
cd /verif/gover && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /verif/bin/gover . && cd /verif && exec ./bin/gover "$@"
