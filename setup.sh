#!/bin/bash
# Warms nothing that a check depends on: every check builds what it needs. Verifies the toolchain is present.
set -e
cd "$(dirname "$0")/harness"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly PATH=/opt/veriftools/go1.23.12/bin:$PATH
go vet ./cmd/check >/dev/null
test -x /usr/lib/postgresql/16/bin/initdb
