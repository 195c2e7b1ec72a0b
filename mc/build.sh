#!/bin/bash
# Build the explorer together with the server from /repo's working tree.
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${MC_TARGET:-/verif/target}"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Crelocation-model=static -Clink-arg=-no-pie"
cd "$(dirname "$0")" && exec cargo build --offline --target x86_64-unknown-linux-gnu "$@"
