#!/bin/bash
# check.sh ID quick|thorough            run the check of a property
# check.sh ID replay STAGE CASE         run one case of it again
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_ROOT="$PWD"
ID=$1; TIER=${2:-quick}
build() { # target dir, extra arguments
  local dir=$1; shift
  # a copied tree may carry older times than an earlier build: always compile the crate under test
  rm -rf "$dir"/*/.fingerprint/substrate_parser-* "$dir"/*/*/.fingerprint/substrate_parser-*
  (cd harness && CARGO_TARGET_DIR="$dir" cargo build --offline -q "$@") 2>"$VERIF_ROOT/evidence/.build.$$" || {
    cat "$VERIF_ROOT/evidence/.build.$$"; rm -f "$VERIF_ROOT/evidence/.build.$$"; echo "build failed"; exit 2; }
  rm -f "$VERIF_ROOT/evidence/.build.$$"
}
# The 32-bit build: a WebAssembly module, with a standard library made from the sources of the toolchain.
W32="$VERIF_ROOT/target/w32"
build_w32() {
  local lib root="$W32/root/lib/rustlib/wasm32-unknown-unknown/lib"
  lib="$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library" || return 1
  if [ ! -e "$W32/root/done" ]; then
    rm -rf "$W32/sys" "$W32/root"; mkdir -p "$root" || return 1
    (cd "$lib" && CARGO_TARGET_DIR="$W32/sys" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zforce-unstable-if-unmarked -Cpanic=abort -Awarnings" \
      cargo +nightly build -q --offline --locked --release --target wasm32-unknown-unknown -p std -p panic_abort \
      --config 'profile.release.debug=0' --config 'profile.release.opt-level=1' --config 'profile.release.codegen-units=8') || return 1
    find "$W32/sys/wasm32-unknown-unknown" \( -name '*.rlib' -o -name '*.rmeta' \) -exec cp {} "$root/" \; || return 1
    rm -rf "$W32/sys"; touch "$W32/root/done"
  fi
  local flags="--sysroot $W32/root -Cpanic=abort -Clink-arg=--no-entry -Clink-arg=-zstack-size=268435456" x
  for x in start room load says made width; do flags="$flags -Clink-arg=--export=$x"; done
  rm -rf "$W32"/out/*/.fingerprint/substrate_parser-* "$W32"/out/*/*/.fingerprint/substrate_parser-* "$W32"/out/*/*/build/substrate_parser*
  (cd harness && CARGO_TARGET_DIR="$W32/out" RUSTFLAGS="$flags" \
    cargo +nightly build -q --offline --no-default-features --features w32 --target wasm32-unknown-unknown --bin v32) || return 1
}
mkdir -p evidence
case "$ID" in
  C03|C19|C21)
    build_w32 >"$VERIF_ROOT/evidence/.w32.$$" 2>&1 & W32_JOB=$!
    export VERIF_W32="$W32/out/wasm32-unknown-unknown/debug/v32.wasm" ;;
esac
case "$ID" in
  C26) build "$VERIF_ROOT/target/native" --features blocks ;;
  *) build "$VERIF_ROOT/target/native" ;;
esac
BIN="$VERIF_ROOT/target/native/debug/vh"
if [ "$ID" = C21 ]; then
  build "$VERIF_ROOT/target/nostd" --no-default-features --profile plain
  export VERIF_NOSTD="$VERIF_ROOT/target/nostd/plain/vh"
fi
prepare_miri() { # targets
  export VERIF_MIRI="$VERIF_ROOT/target/miri"
  rm -rf "$VERIF_MIRI"/*/*/.fingerprint/substrate_parser-* "$VERIF_MIRI"/*/*/*/.fingerprint/substrate_parser-*
  local t
  for t in "$@"; do
    (cd harness && CARGO_TARGET_DIR="$VERIF_MIRI" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks" \
      cargo +nightly miri run --offline -q --no-default-features --target "$t" --bin vh -- probe vm none 1 0 0 1) \
      >"$VERIF_ROOT/evidence/.miri.$$" 2>&1 || { cat "$VERIF_ROOT/evidence/.miri.$$"; rm -f "$VERIF_ROOT/evidence/.miri.$$"; echo "Miri build failed"; exit 2; }
    rm -f "$VERIF_ROOT/evidence/.miri.$$"
  done
  # what is built is run without cargo, so that nothing is built while it runs
  MIRI_TOOLS="$(rustc +nightly --print sysroot)/bin"; export MIRI="$MIRI_TOOLS/miri" VERIF_MIRI_RUN="$MIRI_TOOLS/cargo-miri"
  MIRI_SYSROOT="$(cargo +nightly miri setup --print-sysroot --target "$1" 2>/dev/null)" || { echo "no Miri sysroot"; exit 2; }
  export MIRI_SYSROOT
}
case "$ID" in
  C03) prepare_miri x86_64-unknown-linux-gnu i686-unknown-linux-gnu ;;
  C19|C21) prepare_miri i686-unknown-linux-gnu ;;
esac
# A build with a sanitizer of the compiler, the standard library included.
build_san() { # name, sanitizer
  local lib dir="$VERIF_ROOT/target/$1" t=x86_64-unknown-linux-gnu sys
  sys="$(rustc +nightly --print sysroot)"; lib="$sys/lib/rustlib/src/rust/library"
  local root="$dir/root/lib/rustlib/$t/lib"
  if [ ! -e "$dir/root/done" ]; then
    rm -rf "$dir/sys" "$dir/root"; mkdir -p "$root" || return 1
    (cd "$lib" && CARGO_TARGET_DIR="$dir/sys" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zforce-unstable-if-unmarked -Zsanitizer=$2 -Awarnings" \
      cargo +nightly build -q --offline --locked --release --target $t -p std --features panic-unwind \
      --config 'profile.release.debug=0' --config 'profile.release.opt-level=1' --config 'profile.release.codegen-units=8') || return 1
    find "$dir/sys/$t" \( -name '*.rlib' -o -name '*.rmeta' \) -exec cp {} "$root/" \; || return 1
    cp "$sys/lib/rustlib/$t/lib/"librustc-nightly_rt.*.a "$root/" || return 1
    rm -rf "$dir/sys"; touch "$dir/root/done"
  fi
  rm -rf "$dir"/out/*/.fingerprint/substrate_parser-* "$dir"/out/*/*/.fingerprint/substrate_parser-*
  (cd harness && CARGO_TARGET_DIR="$dir/out" RUSTFLAGS="--sysroot $dir/root -Zsanitizer=$2" \
    cargo +nightly build -q --offline --no-default-features --target $t --bin vh) || return 1
}
san() { # variable, name, sanitizer
  build_san "$2" "$3" >"$VERIF_ROOT/evidence/.san.$$" 2>&1 || { cat "$VERIF_ROOT/evidence/.san.$$"; rm -f "$VERIF_ROOT/evidence/.san.$$"; echo "build with $2 failed"; exit 2; }
  rm -f "$VERIF_ROOT/evidence/.san.$$"
  export "$1=$VERIF_ROOT/target/$2/out/x86_64-unknown-linux-gnu/debug/vh"
}
if [ "$TIER" = thorough ]; then
  case "$ID" in
    C03) san VERIF_ASAN asan address; san VERIF_MSAN msan memory ;;
    C21) san VERIF_TSAN tsan thread ;;
  esac
fi
if [ -n "${W32_JOB:-}" ]; then
  wait "$W32_JOB" || { cat "$VERIF_ROOT/evidence/.w32.$$"; rm -f "$VERIF_ROOT/evidence/.w32.$$"; echo "32-bit build failed"; exit 2; }
  rm -f "$VERIF_ROOT/evidence/.w32.$$"
fi
case "$TIER" in
  replay) exec "$BIN" check "$ID" quick "$3" "$4" ;;
  quick|thorough) "$BIN" check "$ID" "$TIER" ;;
  *) echo "tier?"; exit 2 ;;
esac
