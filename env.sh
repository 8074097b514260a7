export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=1
unset RUSTFLAGS LD_LIBRARY_PATH
