# Build settings shared by every check (offline, pinned toolchain, own target directory).
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=1.87
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=0
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${VERIF_DIR:-/verif}/harness/target"
unset RUSTFLAGS CARGO_PROFILE_DEV_DEBUG CARGO_PROFILE_DEV_OPT_LEVEL CARGO_ENCODED_RUSTFLAGS
