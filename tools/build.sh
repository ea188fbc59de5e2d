#!/bin/bash
# Builds the verifier (bin/gv) from gv/, offline. Used by setup_cmd and, when
# the binary is missing or older than its sources, by every check.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
export HOME=${HOME:-/root}
mkdir -p $V/bin
cd $V/gv
T=$(mktemp $V/bin/gv.XXXXXX)
go build -o $T .
chmod 755 $T
mv -f $T $V/bin/gv
