#!/bin/bash
# check.sh ID [args]: builds the check of one property against /repo's working tree and runs it.
set -u
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
ID=${1:?usage: check.sh ID}; shift
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
export VERIF_ROOT="$ROOT" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
. "$ROOT/env.sh"
build_bins "$BIN" || exit 2
exec "$ROOT/target/release/$BIN" "$@"
