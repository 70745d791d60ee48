#!/bin/bash
# Run in the source tree after the build: links a small program with the library just built.
D=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH HOME=${HOME:-/root}
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export TREE=$PWD
L=target/debug/deps
newest() { ls -t $L/$1-*.rlib | head -1; }
rustc --edition 2021 -C opt-level=1 -A warnings "$D/main.rs" -o "$W/demo" -L dependency=$L \
  --extern rayon=$(newest librayon) --extern rav1e=$(newest librav1e) --extern ivf=$(newest libivf) --extern libdav1d_sys=$(newest liblibdav1d_sys) \
  -L native=$(ls -d $PWD/target/debug/build/libdav1d-sys-*/out/src 2>/dev/null | head -1) || exit 3
cd "$W" && timeout 280 ./demo
