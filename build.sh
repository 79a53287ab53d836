#!/bin/bash
# Build the simulator against /repo's current working tree, offline.
export HOME=/root
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.88.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_HUSKY_DONT_INSTALL_HOOKS=1 CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
cd /verif/sim && exec cargo build --offline --quiet "$@"
