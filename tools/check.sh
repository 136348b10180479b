#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")/.." && pwd)
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${2:-${VERIF_TIER:-quick}}
"$here/tools/build.sh" "$1" || exit 2
exec "$here/sim/target/debug/orsim" check "$1" --tier "$VERIF_TIER"
