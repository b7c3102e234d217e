#!/bin/bash
# ./check.sh <property> quick|thorough|replay FILE|case SUITE SEED
# Builds the monitor of the property against /repo's working tree and runs it.
set -u
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
export VERIF_SEED="${VERIF_SEED:-1}"
id="$1"; mode="${2:-${VERIF_TIER:-quick}}"; shift; shift || true

export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
ulimit -c 0

case "$id" in
  C08) crate=rope-asan ;;
  C0[1-9]|C1[01]) crate=rope ;;
  C12|C13|C14|C16) crate=rpc; export MON_WORKERS=24 ;;
  C15) crate=rpc-tsan ;;
  C32|C33) crate=e2e; export MON_WORKERS=24 ;;
  C1[7-9]|C[23][0-9]) crate=core; export MON_WORKERS=24 ;;
  *) echo "unknown property $id"; exit 2 ;;
esac

build() { # crate toolchain target-dir extra-args... (RUSTFLAGS in $flags)
  local crate="$1" tc="$2" dir="$3"; shift 3
  local log="$VERIF_DIR/target/build-$crate-$tc-$$.log"
  mkdir -p "$VERIF_DIR/target"
  if ! ( cd "mon/$crate" && RUSTUP_TOOLCHAIN="$tc" CARGO_TARGET_DIR="$dir" RUSTFLAGS="${flags:-} -Awarnings" \
        timeout 800 cargo build --offline "$@" >"$log" 2>&1 ); then
    grep -E -A8 '^error' "$log" | head -60
    echo "check error: building mon/$crate failed (log $log)"
    exit 2
  fi
  rm -f "$log"
}

T="$VERIF_DIR/target"
case "$crate" in
  rope-asan)
    # memory safety of the vectorised comparison: the monitor runs under AddressSanitizer
    flags="-Zsanitizer=address" build rope nightly "$T/asan" --target x86_64-unknown-linux-gnu
    export ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:symbolize=0"
    bin="$T/asan/x86_64-unknown-linux-gnu/debug/ropemon" ;;
  rpc-tsan)
    # data races: the monitor, the code and the standard library under ThreadSanitizer
    flags="-Zsanitizer=thread --cfg mon_tsan" build rpc nightly "$T/tsan" -Zbuild-std --target x86_64-unknown-linux-gnu
    export TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1"
    bin="$T/tsan/x86_64-unknown-linux-gnu/debug/rpcmon" ;;
  rope) build rope stable "$T"; bin="$T/debug/ropemon" ;;
  rpc)  build rpc stable "$T"; bin="$T/debug/rpcmon" ;;
  core) flags="--cfg xi_mon" build core stable "$T/core"; bin="$T/core/debug/coremon" ;;
  # the binaries themselves: the core, the sample plugin and the monitor's plugins are processes
  e2e)  build e2e stable "$T/e2e" --bins; bin="$T/e2e/debug/e2emon" ;;
esac
exec "$bin" "$id" "$mode" "$@"
