export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${SVGCHECK_TARGET:-$PWD/target}"
