#!/bin/bash
# Builds every check once, so that later builds are incremental.
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
. "$ROOT/env.sh"
build_bins $(ls "$ROOT/harness/src/bin" | sed 's/\.rs$//')
