#!/bin/bash
# try.sh SCALE ID...: build and run checks at a scale (development)
cd /verif/sim && cargo build --release --offline -q --target-dir /verif/target 2>&1 | grep -E "^error" -A12
sc=$1; shift
for c in "$@"; do LSIM_SCALE=$sc timeout 900 /verif/target/release/lsim check $c quick 2>&1 | tail -5 | cut -c1-${W:-900}; done
