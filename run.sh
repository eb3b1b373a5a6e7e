#!/bin/bash
# run.sh ID [--replay FILE]: builds the harness against /repo's working tree and
# runs the check of one property. Tier and seed come from VERIF_TIER, VERIF_SEED.
ROOT=$(cd "$(dirname "$0")" && pwd)
. "$ROOT/harness/env.sh"
export VERIF_ROOT="$ROOT"
"$ROOT/build.sh" "$1" || { echo "harness error: build failed" >&2; exit 3; }
exec "$ROOT/.build/pbt" "$@"
