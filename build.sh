#!/bin/bash
# build.sh engine|ir|native|all : build the engine, the LLVM IR of the code under test, or the native replay binary.
# Everything lands in /verif/build (git-ignored). Crates of /repo and the harness are always rebuilt.
set -e
cd "$(dirname "$0")"
V=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUSTUP_TOOLCHAIN
mkdir -p build
engine() { (cd symex && CARGO_TARGET_DIR=$V/build/symex cargo +stable build --release --offline -q); }
ir() {
  T=$V/build/ir/x86_64-unknown-linux-gnu/debug/build
  for c in adextopa-core harness; do rm -rf "${T:?}/$c"; done
  rm -rf "$V/build/ir/debug/build/adextopa_macros"
  (cd harness && CARGO_TARGET_DIR=$V/build/ir RUSTFLAGS="--cfg miri --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp -C codegen-units=1 -A warnings" \
    cargo +nightly build --lib --offline -q -Zbuild-std=std,panic_abort --target x86_64-unknown-linux-gnu)
  : > build/mods.tmp
  for c in harness adextopa-core regex regex-syntax aho-corasick memchr std core alloc hashbrown substring lazy_static compiler_builtins std_detect panic_abort panic_unwind libc cfg-if rustc-demangle; do
    find "$T/$c" -name '*.ll' -path '*/out/*' | sort >> build/mods.tmp
  done
  mv build/mods.tmp build/mods.txt
}
native() {
  rm -rf "$V/build/native/debug/.fingerprint/"adextopa* "$V/build/native/debug/.fingerprint/"harness*
  rm -rf "$V/build/native/debug/build/"{adextopa*,harness*}
  (cd harness && CARGO_TARGET_DIR=$V/build/native RUSTFLAGS="-A warnings" cargo +stable build --offline -q --features native)
}
for w in "$@"; do
  case $w in
    engine) engine ;;
    ir) ir ;;
    native) native ;;
    repo) ir & p=$!; native; wait $p ;;
    all) engine; ir; native ;;
  esac
done
