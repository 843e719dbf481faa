# Toolchain of this codebase (see DESIGN.md); sourced by the scripts here.
export HOME=/root
export RUSTUP_TOOLCHAIN=1.90.0     # newer rustc rejects src/error.rs
export CLANG=/usr/bin/clang-20     # must read the LLVM IR of that rustc
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_TARGET
