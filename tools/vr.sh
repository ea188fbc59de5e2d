#!/bin/bash
# vr.sh PROP [budget] [seed] : run the oracles of one property (development aid)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
REPO=${REPO:-/repo}
W=${W:-/tmp/vr}
mkdir -p $W
V=$(cd "$(dirname "$0")/.." && pwd)
python3 $V/tools/overlay.py $V $REPO $W $1
PKG=.; [ "$1" = C26 ] && PKG=./examples/lisp-repl
cd $REPO && go test -c -overlay $W/ov.json -o $W/vr.test $PKG || exit 2
cd $W && VR_PROP=$1 VR_BUDGET=${2:-5} VR_SEED=${3:-1} VR_OUT=$W/out.json ./vr.test -test.run '^TestVerifReplay$'
