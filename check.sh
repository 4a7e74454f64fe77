#!/bin/bash
# Build the monitor against /repo's working tree and judge one property.
#   check.sh <property> [tier]       (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 2
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
BIN=presale-monitor
[ "$P" = C16 ] && BIN=tree-monitor
. ./build.sh "$BIN" || { echo "INCONCLUSIVE: the monitor does not build against this tree" >&2; exit 4; }
exec "./harness/target/release/$BIN" check --property "$P" --tier "$TIER" --seed "$SEED" --dir "$PWD"
