#!/bin/bash
# check.sh PROPERTY: builds the monitors against /repo's working tree and runs the check of one property.
# VERIF_SEED and VERIF_TIER (quick, thorough) come from the environment.
P=$1
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR MIRIFLAGS
V=$PWD
T=$V/harness/target
export SFSMON_DIR=$V/harness
# cargo trusts modification times; the sources decide here
H=$(cd /repo && find stable-fs Cargo.toml -type f -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ "$H" != "$(cat "$T/sources.sha" 2>/dev/null)" ]; then
    find "$T" -type d -path '*/.fingerprint/stable-fs-*' -prune -exec rm -rf {} + 2>/dev/null
fi
# build NAME TOOLCHAIN RUSTFLAGS ARGS..
build() {
    local n=$1 t=$2 f=$3; shift 3
    (cd harness && RUSTUP_TOOLCHAIN=$t RUSTFLAGS=$f cargo "$@" --offline -q >"$T/build-$n.log" 2>&1) && return 0
    tail -40 "$T/build-$n.log"; echo "BUILD FAILED ($n)"; exit 2
}
mkdir -p "$T"
build release 1.88.0 "" build --release
echo "$H" > "$T/sources.sha"
case $P in
build|P16)
    build asan nightly -Zsanitizer=address build --release --target x86_64-unknown-linux-gnu --target-dir target/asan
    MIRIFLAGS=-Zmiri-disable-isolation build miri nightly "" miri run --target-dir target/miri -- solo --cases 0 ;;
esac
case $P in
build|P22) build plain 1.88.0 "" build --profile plain ;;
esac
case $P in
build|P28)
    (cd wasm && RUSTUP_TOOLCHAIN=1.88.0 cargo build --offline -q --release --target wasm32-unknown-unknown --target-dir "$T/wasm" >"$T/build-wasm.log" 2>&1) ||
        { tail -40 "$T/build-wasm.log"; echo "BUILD FAILED (wasm)"; exit 2; } ;;
esac
if [ "$P" = build ]; then exit 0; fi
exec "$T/release/sfsmon" check "$P" --tier "${VERIF_TIER:-quick}" --seed "${VERIF_SEED:-1}" \
    --evidence "$V/evidence/$P.json" --replays "$V/replays"
