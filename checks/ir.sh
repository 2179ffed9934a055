#!/bin/bash
# development aid: emit the IR of the current tree to $1
cd /verif/harness && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo rustc --release --offline -q --lib --crate-type staticlib --target-dir ${T:-/verif/harness/target} -- --emit=llvm-ir 2>/dev/null; cp $(ls -t ${T:-/verif/harness/target}/release/deps/harness-*.ll | head -1) $1
