#!/bin/bash
# Builds the driver once (fills the Go build cache) and parses every specification.
set -e
cd "$(dirname "$0")"
export PATH="$PATH:/usr/local/go/bin" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off HOME="${HOME:-/root}"
mkdir -p .work/setup evidence
cp harness/go.mod harness/go.sum .work/setup/
(cd harness && go build -modfile ../.work/setup/go.mod -o ../.work/setup/drv .)
for t in spec/Trace_*.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename "$t")" >../.work/setup/sany.log 2>&1) || { cat .work/setup/sany.log; exit 1; }
done
echo setup done
