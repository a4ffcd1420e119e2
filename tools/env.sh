export VERIF_ROOT="${VERIF_ROOT:-$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.76.0
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$VERIF_ROOT/build/target"
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export RUSTFLAGS="--cap-lints warn -A warnings --cfg vp_monitor"
