#!/bin/bash
# build_sim.sh CONFIG [extra cargo args]: rebuilds the simulator against /repo's working tree
cd "$(dirname "$0")/sim" || exit 2
c=$1; shift
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0
case $c in unstable) export RUSTUP_TOOLCHAIN=nightly-2024-11-07;; *) export RUSTUP_TOOLCHAIN=stable;; esac
rm -rf ../target/$c/debug/.fingerprint/{fallible_collections,fcsim,fcsim_core}-* 
exec cargo build --offline --features cfg_$c --target-dir ../target/$c "$@"
