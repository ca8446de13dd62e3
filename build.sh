#!/bin/bash
# Builds /verif/bin/symgo from /verif/engine (offline).
set -u
cd "$(dirname "$0")/engine" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
new=1
if [ -x ../bin/symgo ]; then
  new=0
  for f in *.go go.mod go.sum; do [ "$f" -nt ../bin/symgo ] && new=1; done
fi
if [ $new = 1 ]; then
  mkdir -p ../bin
  go build -o ../bin/symgo.tmp.$$ . && mv ../bin/symgo.tmp.$$ ../bin/symgo || { echo "CHECK-ERROR: the engine does not build"; exit 2; }
fi
