#!/bin/bash
# Builds the simulator against /repo's current working tree. Usage: build.sh [plain|fine|py]
# The binary goes to target/KIND/simx.
set -u
here=$(cd "$(dirname "$0")" && pwd)
kind=${1:-plain}
[ -f /opt/vp/env.sh ] && PATH=$(bash -c 'source /opt/vp/env.sh >/dev/null 2>&1; echo "$PATH"') && export PATH
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true PYO3_PYTHON=/usr/bin/python3 CARGO_INCREMENTAL=0
export SIM_KIND=$kind RUSTC_WRAPPER="$here/rustc-wrap.sh" CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd "$here" || exit 3
mkdir -p "$here/target/$kind"
# Cargo goes by modification times; a replaced file may be older than the last build.
for d in "$here"/target/release/.fingerprint/cryst-symm-*; do
  [ -d "$d" ] && rm -r -- "$d"
done
log="$here/target/build.log"
try() {
  cargo build --release "$@" >"$log" 2>&1 && cp -f "$here/target/release/simx" "$here/target/$kind/simx" && exit 0
}
if [ "$kind" = py ]; then
  try --locked --features extra,py
  try --locked --features py
  try --features py
else
  # The second form does without the helper functions that are not needed by most checks.
  try --locked --features extra
  try --locked
  try
fi
tail -40 "$log" >&2
exit 3
