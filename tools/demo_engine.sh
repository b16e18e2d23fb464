#!/bin/bash
# Builds demo.rs (beside this file) against the repository in the current directory and runs it.
R=$(pwd)
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/amqp-demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$H/demo.rs" "$T/src/main.rs"
cp "$H/peer.rs" "$T/src/peer.rs"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
ntex-amqp = { path = "$R" }
ntex-amqp-codec = { path = "$R/codec" }
ntex-bytes = "1"
ntex-codec = "1"
ntex-io = "3"
ntex-error = "2"
ntex-net = { version = "3", features = ["tokio"] }
ntex-rt = "3"
ntex-service = "4"
ntex-util = "3"
[patch.crates-io]
ntex-amqp = { path = "$R" }
ntex-amqp-codec = { path = "$R/codec" }
TOML
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cd "$T" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline -q >"$T/log" 2>&1 || { cat "$T/log"; exit 4; }
timeout 60 "$T/target/debug/demo"
