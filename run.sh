#!/bin/bash
# run.sh <PROPERTY> [--replay FILE]: rebuilds what the check of the property needs from /repo's
# current tree, and runs it.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
id="$1"
case "$id" in
    C01|C02|C03|C04|C05|C06|C07|C08|C22) crate=h-codec ;;
    C10|C11|C12|C13|C14) crate=h-conn ;;
    C15|C16|C17|C18|C19|C23|C25|C26) crate=h-mc ;;
    C09|C20|C21) crate=h-sys ;;
    C24) crate=h-nostd ;;
    *) echo "unknown property $id"; exit 3 ;;
esac
. ./build.inc
if [ "$id" = C23 ]; then
    build h-e2e || exit 3
    export VERIF_EXAMPLE_BIN="$BIN"
fi
build "$crate" || exit 3
exec "$BIN" "$@"
