#!/bin/bash
# Build the simulator against /repo's current working tree. Quiet on success.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export CARGO_TARGET_DIR="$here/target" RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$here/wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock"; flock 9
# never trust time stamps for the library under test
find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -name 'material-color-utilities-rs-*' -exec rm -r {} + 2>/dev/null
out="$(cargo build --release --offline --locked 2>&1)" || { echo "$out" >&2; echo "build failed" >&2; exit 2; }
