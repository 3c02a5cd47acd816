#!/bin/bash
# Builds the checker and warms the Go build cache. Offline.
set -e
. /verif/env.sh
mkdir -p /verif/bin /verif/evidence
cd /verif/gosym
go build -o /verif/bin/gosym .
# warm the cache of the repository's packages and of test binaries
cd /repo
go build ./... >/dev/null 2>&1 || true
go vet -vettool=/bin/true ./... >/dev/null 2>&1 || true
go list -deps -export ./... >/dev/null 2>&1 || true
