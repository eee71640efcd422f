export RUSTUP_TOOLCHAIN=1.85.0-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=/verif/target
export CARGO_NET_OFFLINE=true
export CARGO_RESOLVER_INCOMPATIBLE_RUST_VERSIONS=fallback CARGO_TERM_COLOR=never
