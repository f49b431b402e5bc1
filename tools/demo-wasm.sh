#!/bin/bash
# builds demo.rs (beside this file) for wasm32 against the stable-fs crate of the current directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/demo.rs" "$T/src/lib.rs" && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
stable-fs = { path = "$R/stable-fs" }
ic-stable-structures = "0.7.2"
[workspace]
X
cat > "$T/run.js" <<'X'
const mod = new WebAssembly.Module(require('fs').readFileSync(process.argv[2]));
const imports = {};
for (const i of WebAssembly.Module.imports(mod)) (imports[i.module] ||= {})[i.name] = () => { throw new Error('import ' + i.name); };
const r = new WebAssembly.Instance(mod, imports).exports.run();
console.log('result', r);
process.exit(r ? 1 : 0);
X
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$T/target"
cd "$T" && cargo build --offline -q --target wasm32-unknown-unknown >&2 || exit 3
timeout 200 node "$T/run.js" "$T/target/wasm32-unknown-unknown/debug/demo.wasm"
