#!/bin/sh
# Runs the demonstration against the crate in the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
crate=$PWD
work=$(mktemp -d)
trap 'rm -r "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
fallible_collections = { path = "$crate", @FEATURES@ }
[profile.dev]
debug = false
debug-assertions = @DEBUG@
overflow-checks = @DEBUG@
[workspace]
END
cp "$crate/Cargo.lock" "$work/" 2>/dev/null || true
cd "$work"
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=@TOOLCHAIN@ RUSTFLAGS=
cargo build --offline --target-dir "$work/target" >"$work/log" 2>&1 || { cat "$work/log"; exit 3; }
RUST_BACKTRACE=0 timeout 120 "$work/target/debug/demo"
