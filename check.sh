#!/bin/bash
# check.sh PROPERTY: rebuilds the simulator from /repo's working tree and searches for a violation.
# check.sh build: only builds.
# VERIF_TIER=quick|thorough, VERIF_SEED=n; SIM_SECONDS overrides the search time.
# Exit 0: held on everything explored. 1: VIOLATION line printed. Anything else: no answer.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/sim" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/sim/target"
export RUSTFLAGS="--cfg jmt_sim" CARGO_INCREMENTAL=0
unset CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_ENCODED_RUSTFLAGS
log="$here/sim/target/build.log"
mkdir -p "$here/sim/target" "$here/evidence" "$here/replays"
exec 9>"$here/sim/target/.verif-lock"
flock 9
# What counts is what the files say, not when they were written.
now="$( { cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | sort -z | xargs -0 sha256sum; cd "$here/sim" && find src lockstub Cargo.toml Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)"
stamp="$here/sim/target/.verif-stamp"
if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ] || [ ! -x "$here/sim/target/release/jmtsim" ]; then
    rm -f "$stamp"
    cargo clean --release --offline -p jmt -p jmtsim >"$log" 2>&1
    if ! cargo build --release --offline >"$log" 2>&1; then
        # Perhaps the stand-in for the lock crate lacks something: then without it.
        plain="$here/sim/target/plain"
        rm -rf "$plain" && mkdir -p "$plain" && cp -r src Cargo.lock "$plain/"
        sed '/^\[patch.crates-io\]/,/^parking_lot = /d' Cargo.toml >"$plain/Cargo.toml"
        if ! (cd "$plain" && cargo build --release --offline >"$log.plain" 2>&1); then
            grep -E "^error" -A12 "$log" | head -60 >&2
            echo "BUILD FAILED: see $log" >&2
            exit 4
        fi
        echo "built without the stand-in for the lock crate" >&2
    fi
    echo "$now" >"$stamp"
fi
flock -u 9
[ "${1:-build}" = build ] && exit 0
if [ "${2:-}" = thorough ]; then export VERIF_TIER=thorough; fi
exec env SIM_ROOT="$here" "$here/sim/target/release/jmtsim" check "$1"
