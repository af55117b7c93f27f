#!/bin/bash
# check.sh Cxx [quick|thorough]: builds the verifier if need be and decides one property
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
if [ ! -x bin/vc ] || [ -n "$(find vc -name '*.go' -newer bin/vc)" ]; then
  mkdir -p bin && (cd vc && go build -o ../bin/vc .) || exit 2
fi
VC_HOME="$PWD" VC_SPEC="$PWD/spec" exec bin/vc check -tier "${2:-quick}" "$1"
