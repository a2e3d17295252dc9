export HOME=/root CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/harness/target
