#!/bin/bash
# usage: extract.sh REPO OUT.json   -- builds mirx if needed and dumps the MIR of REPO's openid4vci crate
set -u
REPO=$1; OUT=$2
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/.build
mkdir -p "$B"
# checks started side by side take turns
if command -v flock >/dev/null; then exec 9>"$B/lock"; flock -w 600 9; fi
export CARGO_NET_OFFLINE=true VALUE_BAG_CAPTURE_CTOR=1 CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER RUSTUP_TOOLCHAIN RUSTC CARGO_TARGET_DIR
( exec 9>&-; cd "$V/mirx" && CARGO_TARGET_DIR=$B/mirx cargo +nightly build --release --offline -q ) || { echo "extract: cannot build mirx" >&2; exit 3; }
SYS=$(rustc +nightly --print sysroot)
T=$B/target
rm -rf "$T"/debug/.fingerprint/openid4vci-* "$T"/debug/build/openid4vci "$T"/debug/build/openid4vci-*
rm -f "$OUT"
( exec 9>&-; cd "$REPO" && MIRX_CRATE=openid4vci MIRX_OUT=$OUT MIRX_EXTRA=ssi_dids::Document::select_object \
  LD_LIBRARY_PATH=$SYS/lib RUSTC_WORKSPACE_WRAPPER=$B/mirx/release/mirx CARGO_TARGET_DIR=$T \
  RUSTFLAGS="-Zallow-features= -Zalways-encode-mir -Zmir-opt-level=0 -Awarnings" \
  cargo +nightly check --lib -p openid4vci --offline -q ) || { echo "extract: cargo check failed" >&2; exit 3; }
[ -s "$OUT" ] || { echo "extract: no dump written" >&2; exit 3; }
