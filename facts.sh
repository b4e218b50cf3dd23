#!/bin/bash
# facts.sh <bin|lib> <out.json>: dumps the resolved MIR of /repo's current tree.
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${WIMBD_REPO:-/repo}"
KIND="$1"; OUT="$(realpath -m "$2")"
export RUSTUP_TOOLCHAIN=nightly
SYS="$(rustc --print sysroot)"
export LD_LIBRARY_PATH="$SYS/lib"
T="$V/target"
mkdir -p "$T"
exec 9>"$T/lock"; flock 9
if [ ! -x "$T/driver/debug/wimbd-facts" ] || [ "$V/driver/src/main.rs" -nt "$T/driver/debug/wimbd-facts" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR="$T/driver" cargo build --offline -q)
fi
if [ ! -e "$T/libwimbd_models.rlib" ] || [ "$V/models/src/lib.rs" -nt "$T/libwimbd_models.rlib" ]; then
  rustc --edition 2021 --crate-name wimbd_models --crate-type rlib -Zmir-opt-level=0 -Zalways-encode-mir -Coverflow-checks=no -Cdebug-assertions=no -o "$T/libwimbd_models.rlib" "$V/models/src/lib.rs"
fi
mkdir -p "$T/check"
cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null || true
rm -f "$OUT"
mkdir -p "$(dirname "$OUT")"
export RUSTC_WORKSPACE_WRAPPER="$T/driver/debug/wimbd-facts"
export RUSTFLAGS="-Zalways-encode-mir"
export CARGO_TARGET_DIR="$T/check" CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
export WIMBD_FACTS_TARGET="$KIND" WIMBD_FACTS_OUT="$OUT" WIMBD_FACTS_POLICY="$V/policy.txt"
export WIMBD_FACTS_RUSTC_ARGS="-Zunstable-options --extern force:wimbd_models=$T/libwimbd_models.rlib -Zmir-opt-level=0 -Coverflow-checks=no -Cdebug-assertions=no -Zalways-encode-mir"
# cargo would skip a fresh crate: remove only this crate's own outputs
rm -rf "$T/check/debug/.fingerprint"/wimbd-* "$T/check/debug/build/wimbd"
SEL=--bin; [ "$KIND" = lib ] && cargo check -q --offline --config "resolver.lockfile-path=\"$T/Cargo.lock\"" --manifest-path "$REPO/Cargo.toml" --lib 2>"$T/check.$KIND.log" || true
[ "$KIND" = bin ] && cargo check -q --offline --config "resolver.lockfile-path=\"$T/Cargo.lock\"" --manifest-path "$REPO/Cargo.toml" --bin wimbd 2>"$T/check.$KIND.log" || true
if [ ! -s "$OUT" ]; then cut -c1-400 "$T/check.$KIND.log" | tail -60 >&2; exit 3; fi
