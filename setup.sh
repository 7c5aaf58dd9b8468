#!/bin/bash
# Builds the harness once, so that a broken toolchain shows here rather than in a check.
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 1
B=$(mktemp -d /tmp/jxv.XXXXXX) || exit 1
trap 'rm -rf "$B"' EXIT
go build -o "$B/jxv" ./cmd/jxv && go vet ./rt ./jx
