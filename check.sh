#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds, explores, writes evidence/PROPERTY.json.
# Exit 0 held, 1 violated (VIOLATION line), 2 no answer.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" "$1" || { echo "the simulator does not build against /repo" >&2; exit 2; }
export VERIF_ROOT=$here VERIF_SEED=${VERIF_SEED:-1}
exec "$here/sim/target/release/zsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
