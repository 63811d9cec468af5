#!/bin/bash
# builds the analyser offline from the committed source
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB='*' GOFLAGS=-mod=readonly
mkdir -p "$here/bin" "$here/evidence"
cd "$here/analyzer" && exec go build -o "$here/bin/szcheck" .
