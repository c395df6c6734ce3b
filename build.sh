#!/bin/bash
# build.sh [PROPERTY]: builds the simulator against /repo's current working tree, and again with the library's
# codecs that are written in Rust where PROPERTY (default: any) makes use of that. Output only below /verif/sim.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
unset RUSTFLAGS
cd "$here/sim" || exit 2
# build TARGET-DIR LOG FEATURE-FLAGS...
build() {
  local dir=$1 log=$2; shift 2
  export CARGO_TARGET_DIR=$dir
  RUSTC_WRAPPER=$here/sim/rustc-wrap.sh cargo build --release --offline --locked "$@" >"$log" 2>&1 && return 0
  # Without the scheduling points at atomic operations, should the compiler refuse to instrument them.
  if grep -qE 'abi-mismatch|sanitizer|tsan' "$log"; then
    cargo clean --release --offline -p zarr -p zcore -p zops -p zsim >/dev/null 2>&1
    RUSTC_WRAPPER= cargo build --release --offline --locked "$@" >"$log" 2>&1 && return 0
  fi
  return 1
}
pure=
case "${1:-all}" in
all | C01 | C02 | C03 | C15 | C18 | C19 | C20 | C21)
  # Of no consequence for the rest should it not build: `zsim` then says that it did without.
  (build "$here/sim/target-pure" "$here/sim/build-pure.log" --no-default-features --features pure || rm -f "$here/sim/target-pure/release/zsim") &
  pure=$!
  ;;
esac
build "$here/sim/target" "$here/sim/build.log"
rc=$?
[ -n "$pure" ] && wait "$pure"
[ $rc = 0 ] && exit 0
grep -E '^error' -A12 "$here/sim/build.log" >&2 || tail -40 "$here/sim/build.log" >&2
exit 2
