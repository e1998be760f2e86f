#!/bin/bash
# dev.sh PKG REGEX [SEED...]: run tests of one harness package directly, for development
cd "$(dirname "$0")/../harness" || exit 2
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local KIT_KNOWN=/verif/known-findings
pkg=$1; re=$2; shift 2
go vet "./$pkg" || exit 2
for s in ${@:-1}; do
  KIT_SEED=$s go test -count=1 "./$pkg" -run "$re" ${DEVV:+-v} 2>&1 | grep -v "rapid\] draw\|To reproduce\|^IncreaseThreshold:" | cut -c1-${DEVW:-700} | head -${DEVN:-40}
  find "$PWD/$pkg/testdata" -delete 2>/dev/null
done
