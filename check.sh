#!/bin/bash
# usage: check.sh <property>   builds the analyser from the committed source and
# runs it against /repo's working tree.
prop="$1"
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GONOSUMDB='*' GOFLAGS=-mod=readonly
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$here/bin" "$here/evidence"
if ! out=$(cd "$here/analyzer" && go build -o "$here/bin/szcheck" . 2>&1); then
  echo "$out"
  echo "VIOLATION property=$prop replay=$here/analyzer"
  echo "  [internal] the analyser does not build"
  exit 1
fi
"$here/bin/szcheck" -prop "$prop" -repo "${SZ_REPO:-/repo}" -verif "$here"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  echo "VIOLATION property=$prop replay=$here/analyzer"
  echo "  [internal] the analyser ended with status $rc"
  exit 1
fi
exit $rc
