#!/bin/bash
# builds demo.rs (beside this file) against the stable-fs crate of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/main.rs" && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
stable-fs = { path = "$R/stable-fs" }
ic-stable-structures = "0.7.2"
ciborium = "0.2"
serde = { version = "1", features = ["derive"] }
[workspace]
X
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$T/target"
cd "$T" && cargo build --offline -q >&2 || exit 3
timeout 200 "$T/target/debug/demo"
