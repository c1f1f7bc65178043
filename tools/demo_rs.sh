#!/bin/bash
# Builds demo.rs (beside this file) against the fbas_analyzer in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$T"' EXIT
export RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=-Awarnings
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" || exit 2
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fbas_analyzer = { path = "$R", default-features = false, features = ["qsc-simulation"] }
log = "0.4"
serde_json = "1.0"
[profile.dev]
debug = false
EOF
cd "$T" && cargo build --offline --quiet || { echo "demo does not build"; exit 2; }
timeout 120 "$T/target/debug/demo"
