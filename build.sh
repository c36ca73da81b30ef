#!/bin/bash
# build.sh [property]: builds the simulator against /repo's current working
# tree, hooks on, and prints the path of the program. If not all of it builds
# (a change may have moved what the hooks of some part reach for), it builds
# the part which decides that property alone, so that the others still answer.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
LOG=$(mktemp)
trap 'rm -f "$LOG"' EXIT
CORE="--cfg rtps_sim"
STATELESS="$CORE --cfg rtps_sim=\"stateless\""
WRITERS="$STATELESS --cfg rtps_sim=\"stateful\""
build() { # flags, target directory, further arguments
  export RUSTFLAGS="$1" CARGO_TARGET_DIR="$PWD/$2"
  shift 2
  cargo build --release --offline --locked --manifest-path sim/Cargo.toml "$@" > "$LOG" 2>&1
}
if build "$WRITERS" target; then
  echo "$PWD/target/release/rtps-dst"
  exit 0
fi
case "$1" in
  M01 | M02 | M03 | M04 | M05 | W02 | W03) part=base ;;
  M06) part=stream ;;
  M07) part=mem ;;
  C01) part=codec ;;
  L01) part=routing ;;
  T01 | T02) part=timing ;;
  A01) part=sets ;;
  A02) part=numbers ;;
  A03) part=ident ;;
  W01) part=stateless ;;
  W04 | W05) part=writers ;;
  *) part=codec,ident,mem,numbers,routing,sets,stream,timing ;;
esac
case "$part" in
  stateless) flags="$STATELESS" ;;
  writers) flags="$WRITERS" ;;
  *) flags="$CORE" ;;
esac
if build "$flags" "target/part/${part%%,*}" --no-default-features --features "$part"; then
  echo "only part of the simulator builds: $part" >&2
  echo "$PWD/target/part/${part%%,*}/release/rtps-dst"
  exit 0
fi
grep -v '^warning' "$LOG" | tail -n 60 >&2
exit 2
