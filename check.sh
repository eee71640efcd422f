#!/bin/bash
# usage: check.sh <property> [quick|thorough] [--only CASE]
# Builds the harness of the property from /repo's current tree and explores. Exit 0: the property
# held on everything explored; 1: it did not (VIOLATION lines); 2: no answer (it did not build).
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
. ./env.sh
. ./lib.sh
id=$1 tier=${2:-${VERIF_TIER:-quick}}
shift 2
refresh
harness "$id" || { echo "no check for $id"; exit 2; }
build || { echo "$id: the harness does not build against this tree"; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$bin" "$id" "$tier" "$@"
