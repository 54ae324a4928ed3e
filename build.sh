#!/bin/bash
# Builds the symbolic execution engine into /verif/work/symx (offline).
set -e
cd "$(dirname "$0")"
mkdir -p work evidence
if [ -x work/symx ] && [ -z "$(find engine -newer work/symx -name '*.go' | head -1)" ]; then exit 0; fi
for d in /opt/veriftools/go1.26.10 /opt/veriftools/go1.26*; do
  [ -x "$d/bin/go" ] && { export PATH="$d/bin:$PATH"; break; }
done
unset GOROOT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
cd engine && go build -o ../work/symx.tmp . && mv ../work/symx.tmp ../work/symx
