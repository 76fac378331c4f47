#!/bin/bash
# Builds everything once (the checks rebuild what depends on /repo).
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
. ./build.inc
rc=0
for c in $CRATES; do
    build "$c" || rc=1
done
exit $rc
