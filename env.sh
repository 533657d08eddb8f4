# fixed build environment of every check (sourced)
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=1.97.1
export RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1
export RUSTC_WRAPPER=
unset CARGO_PROFILE_DEV_DEBUG CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET || true
export RUST_BACKTRACE=0
