#!/bin/bash
# Usage: check.sh ID      decides property ID over /repo's working tree.
#        check.sh --replay FILE   replays a violation exactly.
# VERIF_SEED, VERIF_TIER (quick or thorough), VERIF_BUDGET_S (search seconds).
. /opt/vp/env.sh
cd "$(dirname "$0")/sim" || exit 2
export VERIF_SIM_DIR=${VERIF_SIM_DIR:-$PWD}
tmp=$(mktemp -d /tmp/verifsim-bin-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/simctl" ./cmd/simctl || exit 2
if [ "$1" = --replay ]; then
  "$tmp/simctl" replay "$2"
else
  "$tmp/simctl" check "$1"
fi
