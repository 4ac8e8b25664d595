# sourced by the check scripts
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2023-11-04
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS
