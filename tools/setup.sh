#!/bin/bash
# Build the executor and the harness crates once.
set -e
cd /verif/engine
CARGO_TARGET_DIR=/verif/target/engine CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.97.1 cargo build --release --offline -q
for c in $(cd /verif/harness && ls -d */ | tr -d / | grep -v '^vp$'); do [ -f /verif/harness/$c/Cargo.toml ] && bash /verif/tools/build_harness.sh $c; done
exit 0
