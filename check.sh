#!/bin/bash
# check.sh <property> [quick|thorough]: exit 0 = held on everything explored, 1 = violated.
mkdir -p /verif/target /verif/evidence /verif/replays
exec 9>/verif/target/.buildlock
flock 9
bash /verif/build.sh || exit 3
flock -u 9
exec 9>&-
exec /verif/target/release/lsim check "$1" "${2:-${VERIF_TIER:-quick}}"
