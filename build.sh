#!/bin/bash
# Builds the harness against the current working tree of /repo. Exit code 3 on failure.
ROOT=$(cd "$(dirname "$0")" && pwd)
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
T=$ROOT/target
mkdir -p "$T"
(
  flock 9
  # cargo decides by modification times, which say little when /repo is a copy
  H=$(cd /repo && find . \( -name target -o -name .git -o -name node_modules \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.cc' -o -name '*.h' -o -name '*.lock' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  cd "$ROOT/harness" || exit 3
  if [ "$H" != "$(cat "$T/.repo-hash" 2>/dev/null)" ]; then
    rm -f "$T/.repo-hash"
    cargo clean --offline --target-dir "$T" -p ipmb -p ipmb-derive -p vh-ffi -p vh-js -p vh >/dev/null 2>&1
  fi
  if ! cargo build --workspace --offline --locked --target-dir "$T" >"$T/build.log" 2>&1; then
    grep -E '^error' -A12 "$T/build.log" | head -60
    echo "harness build failed, see $T/build.log"
    exit 3
  fi
  echo "$H" >"$T/.repo-hash"
) 9>"$T/.lock"
