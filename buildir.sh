#!/bin/bash
# dev helper: buildir.sh DIR FEATURES [extra rustflags]
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1
cd /verif/harness && RUSTFLAGS="--cap-lints=allow --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -Zshare-generics=no $3" cargo build --release --offline --target-dir $1 --no-default-features --features "$2"
