#!/bin/bash
# usage: run.sh check PROP quick|thorough  |  run.sh replay FILE  |  run.sh build
# Builds the harness against /repo's working tree and runs one check.
# Exit 0: held; 1: a violation was found (VIOLATION line); 2: no answer (build or harness failure).
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never RUSTC_WRAPPER=
D=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$D/target AMQPV_ROOT=$D
cd "$D/harness" || exit 2
mkdir -p "$D/target" "$D/evidence" "$D/replays"
if ! cargo build --offline >"$D/target/build.log" 2>&1; then
    tail -n 60 "$D/target/build.log"
    echo "build of the harness failed" >&2
    exit 2
fi
BIN=$D/target/debug/amqpv
cd "$D" || exit 2
# memory: bounded per process, so that a runaway allocation ends the process that made it
ulimit -v 16000000
case "$1" in
    build) exit 0 ;;
    check) exec "$BIN" check --prop "$2" --tier "${3:-${VERIF_TIER:-quick}}" ;;
    replay) exec "$BIN" replay "$2" ;;
    *) echo "usage: run.sh check PROP TIER | replay FILE | build" >&2; exit 2 ;;
esac
