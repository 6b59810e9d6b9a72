#!/bin/bash
# check.sh <property> <quick|thorough>: mirror /repo, build, run. Exit 0 held, 1 violation, 2 error.
V="$(cd "$(dirname "$0")/.." && pwd)"
cd "$V" || exit 2
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
bash bin/sync.sh >&2 || exit 2
mkdir -p build
case "$1" in C26|C27|C28|C29|all) bash bin/ts.sh > build/ts.log 2>&1 || { tail -30 build/ts.log >&2; exit 2; } ;; esac
# the other checks do not depend on whether the services build against their stand-ins
case "$1" in C31|C32|C33|all) OPT= ;; *) OPT="--no-default-features" ;; esac
cargo build --release -p harness > build/build.log 2>&1 \
  || { [ -n "$OPT" ] && cargo build --release -p harness $OPT > build/build.log 2>&1; } \
  || { tail -60 build/build.log >&2; exit 2; }
exec "$V/target/release/harness" check "$1" "${2:-${VERIF_TIER:-quick}}"
