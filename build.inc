# sourced by run.sh and setup.sh
export CARGO_NET_OFFLINE=true
CRATES="h-codec h-conn h-mc h-e2e h-sys h-nostd"
export VERIF_DIR="${VERIF_DIR:-$PWD}"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_INCREMENTAL

# The real tokio, under another name, for the crate that stands in for tokio.
unpack_tokio() {
    local v=tokio-1.54.1 d="$VERIF_DIR/target/deps-src"
    if [ -f "$d/$v/.unpacked" ]; then return 0; fi
    local c
    c=$(find "${CARGO_HOME:-$HOME/.cargo}/registry/cache" -name "$v.crate" | head -n 1)
    if [ -z "$c" ]; then echo "no $v.crate in the cargo cache"; return 1; fi
    mkdir -p "$d" && tar -xzf "$c" -C "$d" && touch "$d/$v/.unpacked"
}

# build <crate>: sets BIN. File times of /repo may go backwards between runs (a change undone by git
# checkout, or a copied sandbox), so cargo must not decide by time whether the code under test changed.
build() {
    local crate="$1" t="$VERIF_DIR/target/$1"
    mkdir -p "$t" || return 1
    exec 9>"$t/.lock"
    flock 9
    for d in "$t"/debug/.fingerprint/vt6-* "$t"/debug/.fingerprint/example* "$t"/debug/.fingerprint/h-* "$t"/debug/.fingerprint/mc-example*; do
        if [ -d "$d" ]; then rm -rf "$d"; fi
    done
    local log="$t/build.log" flags=""
    case "$crate" in
        h-mc) flags="--cfg vt6_mc"; unpack_tokio || return 1 ;;
    esac
    if ! (cd "$VERIF_DIR/$crate" && CARGO_TARGET_DIR="$t" RUSTFLAGS="$flags" cargo build --offline --locked --quiet) >"$log" 2>&1; then
        cat "$log"
        echo "BUILD FAILED: $crate"
        return 1
    fi
    flock -u 9
    exec 9>&-
    BIN="$t/debug/$crate"
}
