#!/bin/bash
# check.sh PROPERTY TIER: rebuild the simulator against /repo's working tree, then run the check.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
unset CARGO_INCREMENTAL
( cd sim && cargo build --release --offline --quiet 2>sim-build.log ) || { cat sim/sim-build.log >&2; echo "build failed" >&2; exit 2; }
rm -f /verif/sim/sim-build.log
exec sim/target/release/khsim check "$1" --tier "$2"
