#!/bin/bash
# run.sh ID: builds the analyser from /verif/sa and decides property ID on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export SA_VERIF="$here" SA_REPO="${SA_REPO:-/repo}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB='*' GOWORK=off
mkdir -p "$here/.bin"
bin="$here/.bin/sa.$$"
if ! (cd "$here/sa" && go build -o "$bin" .); then
  if [ "$1" != build ]; then
    echo "the analyser does not build"
    exit 3
  fi
  exit 1
fi
if [ "$1" = build ]; then mv "$bin" "$here/.bin/sa"; exit 0; fi
"$bin" check "$1"
rc=$?
rm -f "$bin"
exit $rc
