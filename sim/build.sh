#!/bin/bash
# Builds the simulator against /repo's working tree.  Std and all dependencies are compiled from source with
# ThreadSanitizer instrumentation; the callbacks are provided by simrt.c (no ThreadSanitizer runtime is linked).
cd "$(dirname "$0")" || exit 2
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Ccodegen-units=4"
exec cargo build --release --offline  -Zbuild-std=std,panic_unwind --target x86_64-unknown-linux-gnu "$@"
