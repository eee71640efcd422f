#!/bin/bash
# Builds every harness once, so that the checks start from a warm cache where it is kept.
cd "$(dirname "$0")" || exit 1
export VERIF_ROOT=$PWD
. ./env.sh
. ./lib.sh
refresh
for id in $(python3 -c 'import json; print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])'); do
  harness "$id" && build >/dev/null
done
exit 0
