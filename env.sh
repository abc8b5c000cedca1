# The environment the harness is built in; offline, with the stable toolchain.
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable}"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
