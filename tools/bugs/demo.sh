#!/bin/bash
# Compiles demo.rs against the library built in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export SCRATCH=$(mktemp -d)
trap 'rm -r "$SCRATCH"' EXIT
cargo build --lib --offline -q 2>"$SCRATCH/build.log" || { cat "$SCRATCH/build.log"; exit 3; }
rustc --edition 2021 -A warnings -C debuginfo=0 -L dependency=target/debug/deps \
    --extern miniboosts=target/debug/libminiboosts.rlib "$here/demo.rs" -o "$SCRATCH/demo" || exit 3
timeout 120 "$SCRATCH/demo"
rc=$?
echo "demo: $rc"
[ $rc = 0 ] || exit 1
