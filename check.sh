#!/bin/bash
# check.sh <property>: builds the property's harness from /repo's working tree and runs its monitors.
# Exit 0: held; 1: VIOLATION line printed; 2: no verdict (build failure, too little observed).
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. tools/env.sh
export VERIF_PROP="$1" VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
exec python3 tools/check.py "$1"
