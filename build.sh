#!/bin/bash
# Builds bin/sawlint from checker/ (vendored, offline). Sourced by check.sh.
V=${V:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}
mkdir -p "$V/bin" "$V/evidence" "$V/reports"
(
  cd "$V/checker" || exit 2
  export GOFLAGS=-mod=vendor GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
  [ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
  export GOFLAGS=-mod=vendor
  go build -o "$V/bin/sawlint" .
)
