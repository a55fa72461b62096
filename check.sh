#!/bin/bash
# check.sh <property>: exit 0 held, 1 violated, anything else is a problem of the check
ROOT=$(cd "$(dirname "$0")" && pwd)
"$ROOT/build.sh" || exit 3
export RUST_BACKTRACE=0 VH_ROOT="$ROOT"
cd "$ROOT" || exit 3
exec "$ROOT/target/debug/vh" check "$1"
