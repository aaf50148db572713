#!/bin/bash
# usage: run.sh check <ID> [quick|thorough] | replay <file> | build
# Builds the harness against /repo's current working tree, then runs it.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTC_BOOTSTRAP=vp # the harness captures what a thread prints
export CARGO_TARGET_DIR="${VP_TARGET:-$VERIF_DIR/target}"
mkdir -p "$CARGO_TARGET_DIR"
# rebuild the crate under test whenever its content differs from what the last build saw (mtimes are not trusted)
sum=$(cd /repo && find programs -name '*.rs' -o -name 'Cargo.toml' | sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
if [ "$(cat "$CARGO_TARGET_DIR/.repo-sum" 2>/dev/null)" != "$sum" ]; then
  (cd "$VERIF_DIR/harness" && cargo clean --offline -p hmmcl-sandbox >/dev/null 2>&1)
  rm -f "$CARGO_TARGET_DIR/.repo-sum"
fi
if ! (cd "$VERIF_DIR/harness" && cargo build --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1); then
  tail -n 40 "$CARGO_TARGET_DIR/build.log"
  echo "BUILD-FAILED"
  exit 2
fi
echo "$sum" > "$CARGO_TARGET_DIR/.repo-sum"
[ "${1:-}" = build ] && exit 0
exec "$CARGO_TARGET_DIR/debug/vp" "$@"
