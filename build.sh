#!/bin/bash
# Rebuild the simulator against /repo's working tree. File times say nothing about what changed in
# /repo (a tree may be laid down with old times), so what depends on it is always compiled again.
cd "$(dirname "$0")" || exit 2
. ./env.sh
log=target/build.log
mkdir -p target
rm -rf /verif/target/release/.fingerprint/fuel-tx-* /verif/target/release/.fingerprint/sim-* /verif/target/release/.fingerprint/peer-* /verif/target/release/.fingerprint/factory-*
# the peer serves one property
crates=${*:-sim peer}
for crate in $crates; do
    if ! cargo build --manifest-path $crate/Cargo.toml --release --offline --locked >"$log" 2>&1; then
        tail -40 "$log" >&2
        echo "build of $crate failed" >&2
        exit 2
    fi
done
