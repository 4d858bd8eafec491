#!/bin/bash
# check.sh Cnn [quick|thorough]   decide one property on /repo's current working tree
# check.sh replay FILE            run a replay file again
# check.sh build                  build everything
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_INCREMENTAL RUST_BACKTRACE RUST_LOG
V=$(cd "$(dirname "$0")" && pwd)
T=$V/target
mkdir -p "$T" "$V/evidence" "$V/replays"

run_cargo() { # cargo decides by time stamps: forget what it knew about the code under test
  ( cd "$V/sim" && cargo build --quiet --offline --profile "$1" --target-dir "$T" ) >"$T/build-$1.log" 2>&1 && return 0
  grep -E '^error' -A12 "$T/build-$1.log" | head -60 >&2
  return 1
}
build_sim() {
  rm -rf "$T"/release/.fingerprint/svgdom-* "$T"/checked/.fingerprint/svgdom-*
  run_cargo release & local a=$!
  # two profiles share nothing but the directory lock
  run_cargo checked; local rb=$?
  wait $a; local ra=$?
  [ $ra = 0 ] && [ $rb = 0 ]
}
build_cg() {
  rm -rf "$T"/cg/release/.fingerprint/codegen-*
  cargo build --quiet --offline --release --manifest-path /repo/codegen/Cargo.toml --target-dir "$T/cg" >"$T/build-cg.log" 2>&1 ||
    { grep -E '^error' -A12 "$T/build-cg.log" | head -60 >&2; return 1; }
  gcc -O1 -shared -fPIC -o "$T/shim.so.$$" "$V/sim/shim/shim.c" && mv "$T/shim.so.$$" "$T/shim.so"
}

case "$1" in
  build) build_sim && build_cg || exit 2; exit 0 ;;
  replay) build_sim && build_cg || exit 2; SVGSIM_ROOT="$V" exec "$T/release/svgsim" replay "$2" ;;
  C15) build_sim && build_cg || { echo "build failed" >&2; exit 2; } ;;
  C*) build_sim || { echo "build failed" >&2; exit 2; } ;;
  *) echo "usage: check.sh Cnn [quick|thorough] | replay FILE | build" >&2; exit 2 ;;
esac
[ -n "$2" ] && export VERIF_TIER=$2
SVGSIM_ROOT="$V" exec "$T/release/svgsim" check "$1"
