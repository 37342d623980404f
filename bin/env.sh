# Sourced by bin/build and bin/check.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO="${SIM_REPO:-/repo}"
export VERIF REPO
export HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUST_BACKTRACE=0 LC_ALL=C.UTF-8
unset CARGO_TARGET_DIR LD_PRELOAD
export RUSTFLAGS=-Awarnings
B="$VERIF/build"
export SIM_DIR="$VERIF"
export SIM_PRELOAD="$B/libsimos.so"
export SIM_BIN_PLAIN="$B/simcheck-plain"
export SIM_BIN_PROGRESS="$B/simcheck-progress"
export SIM_BIN_NOLOCAL="$B/simcheck-nolocal"
export SIM_CLI_BIN="$B/json_typegen_cli"
export SIM_MACRO_SO="$B/libjson_typegen.so"
export SIM_STUB_SO="$B/libserde_derive.so"
export SIM_RUSTC="$(rustc --print sysroot)/bin/rustc"
