#!/bin/bash
# Warms the build cache: the checks themselves build everything they run.
. /opt/vp/env.sh
cd "$(dirname "$0")/sim" || exit 2
tmp=$(mktemp -d /tmp/verifsim-setup-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/simctl" ./cmd/simctl || exit 2
exit 0
