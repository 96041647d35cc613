#!/bin/bash
# check.sh setup | <property> | replay <file> | trace <file> | selftest
# Builds the shim, the simulator and the real binary from /repo's current working tree, then runs the simulator.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${TI_REPO:-/repo}"
build="${TISIM_BUILD:-$here/build}"
export TI_REPO="$repo" TI_BIN="$build/app/release/ti-tools" TI_BIN_CHECKED="$build/app/debug/ti-tools" TI_SHIM="$build/shim.so"
export TISIM_REPLAYS="${TISIM_REPLAYS:-$here/replays}" TISIM_EVIDENCE="${TISIM_EVIDENCE:-$here/evidence}"
mkdir -p "$build" "$TISIM_REPLAYS" "$TISIM_EVIDENCE" || exit 2
fail() { echo "check.sh: $1" >&2; exit 2; }
(
  flock 9 || exit 2
  if [ ! -e "$build/shim.so" ] || [ "$here/shim/shim.c" -nt "$build/shim.so" ]; then
    gcc -O2 -w -fno-delete-null-pointer-checks -fPIC -shared -fvisibility=hidden -o "$build/shim.so.new" "$here/shim/shim.c" -ldl &&
      mv "$build/shim.so.new" "$build/shim.so" || exit 2
  fi
  (cd "$here/sim" && CARGO_TARGET_DIR="$build/sim" cargo build --release --offline --locked >"$build/sim.log" 2>&1) || { cat "$build/sim.log" >&2; exit 2; }
  # cargo decides by modification times; a tree changed with older times must be rebuilt too
  sum="$(cd "$repo" && find . \( -name target -o -name .git \) -prune -o -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$sum" != "$(cat "$build/app.sum" 2>/dev/null)" ]; then
    for p in release debug; do
      rm -rf "$build/app/$p/.fingerprint/"ti-tools-* "$build/app/$p/.fingerprint/"ti_tools-*
    done
  fi
  (cd "$repo" && CARGO_TARGET_DIR="$build/app" cargo build --release --offline --locked --bin ti-tools >"$build/app.log" 2>&1) || { cat "$build/app.log" >&2; exit 2; }
  # the same with overflow checks and debug assertions
  (cd "$repo" && CARGO_TARGET_DIR="$build/app" CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 cargo build --offline --locked --bin ti-tools >"$build/app.log" 2>&1) || { cat "$build/app.log" >&2; exit 2; }
  echo "$sum" >"$build/app.sum"
) 9>"$build/lock" || fail "the build failed"
case "$1" in
  setup) exit 0 ;;
  replay | trace | gen | selftest) exec "$build/sim/release/tisim" "$@" ;;
  C*) exec "$build/sim/release/tisim" check "$1" ;;
  *) fail "usage: check.sh setup | <property> | replay <file> | trace <file> | selftest" ;;
esac
