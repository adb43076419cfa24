#!/bin/bash
# usage: check.sh ID quick|thorough     (or: check.sh build)
# Builds the harness against /repo's current working tree and runs one property.
# exit 0: held; exit 1 with a VIOLATION line: violated; anything else: no answer.
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
export HOME="${HOME:-/root}" PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:$PATH"
unset RUST_BACKTRACE RUST_LIB_BACKTRACE RUST_LOG RUSTFLAGS
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_HUSKY_DONT_INSTALL_HOOKS=1 CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_INCREMENTAL=1
log="$VERIF_DIR/work/build-$$.log"
mkdir -p "$VERIF_DIR/work"
if ! (cd "$VERIF_DIR/harness" && cargo build --offline --locked >"$log" 2>&1); then
  echo "the harness does not build against /repo:"
  grep -E '^error' -A 8 "$log" | head -60
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
ulimit -v 16000000
ulimit -c 0
exec "$CARGO_TARGET_DIR/debug/vh" run "$1" "${2:-quick}"
