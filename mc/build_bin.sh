#!/bin/bash
# Build the server's own binary from /repo's working tree, outside of /repo.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TARGET_DIR="${MC_TARGET:-/verif/target}/bin"
cd "$(dirname "$0")" && mkdir -p "$CARGO_TARGET_DIR" && gcc -shared -fPIC -O1 simk/cpus.c -o "$CARGO_TARGET_DIR/cpus.so" || exit 1
exec cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin roster
