#!/bin/bash
# Builds the analyser from the committed source (offline).
set -e
cd "$(dirname "$0")"
mkdir -p bin
cd analyzer
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build -o ../bin/trakxlint.$$ .
mv -f ../bin/trakxlint.$$ ../bin/trakxlint
