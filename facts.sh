#!/bin/bash
# Rebuilds the type-resolved facts of /repo's working tree into $1 (default /verif/.cache/facts).
set -e
OUT=${1:-/verif/.cache/facts}
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH HOME=${HOME:-/root}
unset RUSTUP_TOOLCHAIN RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
if [ ! -x "$HERE/.cache/driver/debug/fixfacts" ] || [ -n "$(find "$HERE/driver/src" -newer "$HERE/.cache/driver/debug/fixfacts" -name '*.rs')" ]; then
  (cd "$HERE/driver" && CARGO_TARGET_DIR="$HERE/.cache/driver" cargo +nightly build --offline >&2)
fi
mkdir -p "$OUT"
rm -f "$OUT/fix_rs.json"
REPO=${REPO:-/repo}
T="${FX_TARGET:-$HERE/.cache/target}"
# cargo's freshness cache would skip the wrapper on a warm target directory
find "$T" -path '*fingerprint*' -type d -name 'fix-rs-*' -exec true {} + 2>/dev/null || true
for d in "$T"/debug/.fingerprint/fix-rs-* "$T"/debug/build/fix-rs*; do [ -e "$d" ] && rm -rf "$d"; done
cd "$REPO"
HAD_LOCK=1; [ -e Cargo.lock ] || HAD_LOCK=0
FIXFACTS_CRATES=fix_rs FIXFACTS_OUT="$OUT" RUSTC_WORKSPACE_WRAPPER="$HERE/.cache/driver/debug/fixfacts" \
  CARGO_TARGET_DIR="$T" cargo +nightly check --offline --bins >&2
[ $HAD_LOCK = 1 ] || rm -f Cargo.lock
[ -s "$OUT/fix_rs.json" ]
