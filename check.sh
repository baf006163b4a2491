#!/bin/bash
# check.sh ID            decides the property ID (VERIF_TIER=quick|thorough, VERIF_SEED)
# check.sh ID --replay F runs the case of the replay file F again
cd "$(dirname "$0")" || exit 2
export VP_ROOT="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
id="$1"
shift
# everything the checked code writes goes to a scratch folder
base=/dev/shm
[ -w "$base" ] || base=/tmp
scratch=$(mktemp -d "$base/vp.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
export TMPDIR="$scratch" VP_SCRATCH="$scratch"

build() {
    (cd "$1" && cargo build --release --offline --locked > "$scratch/build.log" 2>&1) || {
        cat "$scratch/build.log"
        echo "the check does not build"
        exit 2
    }
}

case "$id" in
    C32|C33)
        build slice_harness
        target/release/vps "$id" "$@"
        exit $?
        ;;
    C10)
        # the regression alone, then the whole classifier
        build slice_harness
        build harness
        target/release/vps "$id" "$@" || exit $?
        export VP_MERGE=1
        target/release/vp "$id" "$@"
        exit $?
        ;;
    C29|C34)
        build pyffi
        ;;
esac
build harness
target/release/vp "$id" "$@"
exit $?
