#!/bin/bash
# check.sh build            builds the simulator with /repo's current working tree
# check.sh C05 [quick|thorough] [more tsim arguments]
# check.sh replay FILE      runs a replay file against the current tree
# check.sh determinism      runs seeds several times and compares the executions
cd "$(dirname "$0")" || exit 2
export TSIM_VERIF="$PWD"
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL RUSTFLAGS
export CARGO_TARGET_DIR="$PWD/sim/target" RUSTC_WRAPPER="$PWD/sim/rustcw.sh"
build() {
  # always from the tree as it is now, whatever its time stamps say
  (
    flock 9
    cd sim || exit 2
    cargo clean --offline -p tchannel_rs >/dev/null 2>&1
    cargo build --offline >build.log 2>&1
  ) 9>/tmp/.tsim-build.lock
}
case "$1" in
build) build || { tail -40 sim/build.log; exit 2; } ; exit 0 ;;
esac
build || { tail -40 sim/build.log; echo "ERROR: the simulator does not build with /repo"; exit 2; }
case "$1" in
replay) exec sim/target/debug/tsim replay "$2" ;;
determinism) shift; exec sim/target/debug/tsim determinism "$@" ;;
*) p="$1"; t="${2:-${VERIF_TIER:-quick}}"; shift; shift
   exec sim/target/debug/tsim check --property "$p" --tier "$t" "$@" ;;
esac
