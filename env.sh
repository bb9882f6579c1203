# common environment of the checks; everything is offline
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUST_BACKTRACE
