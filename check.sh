#!/bin/bash
# check.sh <ID>            build from /repo's working tree and run the check of property ID (tier from VERIF_TIER)
# check.sh replay <file>   re-run the unit of a recorded violation
# check.sh build           build only
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTUP_TOOLCHAIN
export MC_START="$(date +%s)"
mkdir -p "$here/target" "$here/evidence"
failed() {
  echo "ERROR: the harness does not build against the current tree:"
  tail -40 "$1"
  exit 2
}
plain() {
  (cd "$here/harness" && CARGO_TARGET_DIR="$here/target" cargo build --release --offline --quiet) >"$here/target/build.log" 2>&1 || failed "$here/target/build.log"
}
# the same program, with the standard library, instrumented so that each atomic operation is a scheduling point and
# each access is checked
sched() {
  instrumented -Zbuild-std=std,panic_unwind || failed "$here/target/sched.log"
}
instrumented() {
  (cd "$here/harness" && CARGO_TARGET_DIR="$here/target/sched" RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer" \
    cargo +nightly build $1 --release --offline --quiet --target x86_64-unknown-linux-gnu --features sched) >"$here/target/sched.log" 2>&1
}
what="${1:-}"
[ "$what" = replay ] && what="$(sed -n 's/^property: //p' "$2" | head -1)"
case "$what" in
  build) plain; sched; exit 0 ;;
  C*) sched; exec "$here/target/sched/x86_64-unknown-linux-gnu/release/mc" "$@" ;;
  *) plain; exec "$here/target/release/mc" "$@" ;;
esac
