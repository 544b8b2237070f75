#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds the simulator from /repo's working tree and runs the seeded search for one property.
V="$(cd "$(dirname "$0")" && pwd)"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
py=; [ "$id" = C17 ] && py=py
"$V/build.sh" $py || exit 2
export DSIM_VERIF="$V" VERIF_TIER="$tier"
exec "$V/target/release/dsim" check "$id" --tier "$tier"
