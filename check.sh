#!/bin/bash
# check.sh PROP            build from /repo's working tree and check one property
# check.sh --replay FILE   replay a violation
# check.sh --build         build everything (setup)
# check.sh --log PROP SEED FROM COUNT WORKERS   event log hashes, one line per run
# Exit: 0 held, 1 violation, anything else: no answer.
cd "$(dirname "$0")" || exit 3
here=$(pwd)
export RUSTUP_TOOLCHAIN=1.85.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export VERIF_DIR=$here VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
unset CARGO_TARGET_DIR RUSTC_WRAPPER CARGO_BUILD_TARGET LD_PRELOAD

build() { # name, crate, flags...
    local name=$1 crate=$2; shift 2
    local log=$here/target/$name-$crate.log
    mkdir -p "$here/target"
    if ! (cd "$here/$crate" && CARGO_TARGET_DIR=$here/target/$name cargo build --offline "$@") >"$log" 2>&1; then
        grep -A12 '^error' "$log" | head -60 >&2
        tail -5 "$log" >&2
        echo "build failed: $crate" >&2
        exit 3
    fi
}
plain_flags() { export RUSTFLAGS="-W invalid_reference_casting"; }
hooks_flags() { export RUSTFLAGS="-W invalid_reference_casting --cfg ledger_sim"; }
plain() { plain_flags; build sim harness; }
hooks() { hooks_flags; build hooks harness --features hooks; }
# calls as well as loads; the price history is compared only if the hooks build
calls() {
    (hooks_flags; build calls harness --features hooks,api) 2>/dev/null || { plain_flags; build calls harness --features api; }
}
tool() {
    plain
    build sim cli
    gcc -O1 -shared -fPIC -o target/shim.so harness/shim/shim.c || exit 3
    export LEDGER_BIN=$here/target/sim/debug/ledger-cli LEDGER_SHIM=$here/target/shim.so
}
prepare() {
    bin=target/sim/debug/ledger-sim
    case $1 in
        C12|C13) hooks; bin=target/hooks/debug/ledger-sim ;;
        C17) tool ;;
        C25) calls; bin=target/calls/debug/ledger-sim ;;
        *) plain ;;
    esac
}

case $1 in
    --build) tool; hooks; calls; echo built ;;
    --replay)
        prop=$(python3 -c 'import json,sys; d=json.load(open(sys.argv[1])); print(d.get("plan",d)["prop"])' "$2") || exit 3
        prepare "$prop"; exec "$bin" replay "$2" ;;
    --log) prepare "$2"; shift; exec "$bin" log "$@" ;;
    C[0-9][0-9]) prepare "$1"; exec "$bin" check "$1" ;;
    *) echo "usage: check.sh PROP | --replay FILE | --build | --log PROP SEED FROM COUNT WORKERS" >&2; exit 2 ;;
esac
