#!/bin/bash
# Build the simulator against the current working tree of /repo (always recompiling liner itself).
export RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR=/verif/target CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
cd /verif/sim || exit 3
mkdir -p /verif/target
# never trust time stamps: /repo may be a fresh copy
rm -rf /verif/target/release/.fingerprint/redox_liner-* /verif/target/release/.fingerprint/lsim-*
cargo build --release --offline --locked -q 2>/verif/target/build.log
rc=$?
if [ $rc -ne 0 ]; then
  cat /verif/target/build.log >&2
  exit 3
fi
