#!/bin/bash
# run.sh setup | run.sh <PROPERTY> <quick|thorough> | run.sh replay <path>
set -u
cd "$(dirname "$0")"
ROOT=$PWD
export MC_ROOT=$ROOT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$ROOT/target
export RUST_BACKTRACE=0
mkdir -p "$ROOT/target" "$ROOT/out"
(
  flock 9
  # cargo decides by modification times; decide by content instead
  H=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum | cut -d' ' -f1)
  if [ "$(cat "$ROOT/target/.srchash" 2>/dev/null)" != "$H" ]; then
    rm -rf "$ROOT"/target/release/.fingerprint/onenote_parser-*
  fi
  cargo build --release --offline --manifest-path "$ROOT/harness/Cargo.toml" >"$ROOT/out/build.log" 2>&1 || { tail -40 "$ROOT/out/build.log" >&2; exit 2; }
  echo "$H" >"$ROOT/target/.srchash"
) 9>"$ROOT/target/.lock" || { echo "build failed" >&2; exit 2; }
case "${1:-}" in
  setup) exit 0 ;;
  replay) exec "$ROOT/target/release/mc" replay "$2" ;;
  *) exec "$ROOT/target/release/mc" run "$1" "$2" ;;
esac
