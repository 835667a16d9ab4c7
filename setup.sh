#!/bin/bash
# Builds the analyser from the vendored sources (offline).
set -eu
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=vendor GO111MODULE=on GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/bin"
cd "$here/analyzer"
go build -o "$here/bin/hclcheck" .
