#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree
# and runs one property's check. Exit 0 = held, 1 = violation, 2 = no answer.
verif=$(cd "$(dirname "$0")" && pwd) || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
"$verif/setup.sh" >/dev/null || { echo "cannot build the harness against /repo" >&2; exit 2; }
exec "$verif/harness/target/release/lazcheck" run "$id" --tier "$tier" --seed "$seed" --verif "$verif"
