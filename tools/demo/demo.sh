#!/bin/bash
# Builds the small program beside this script against the library built in the current
# directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root RUSTUP_TOOLCHAIN=stable
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf -- "$work"' EXIT
lib=$(ls -t target/debug/deps/libcgar-*.rlib 2>/dev/null | head -1)
dep() { ls -t target/debug/deps/lib$1-*.rlib | head -1; }
args=()
for d in target/debug/build/gmp-mpfr-sys-*/out/lib; do [ -d "$d" ] && args+=(-L "native=$d"); done
rustc --edition 2021 -C debuginfo=0 -C debug-assertions=on --extern cgar="$lib" \
  --extern rug="$(dep rug)" --extern ahash="$(dep ahash)" \
  -L dependency=target/debug/deps "${args[@]}" -o "$work/demo" "$here/demo.rs" >"$work/log" 2>&1 \
  || { cat "$work/log"; exit 3; }
cd "$work" && timeout 120 ./demo
