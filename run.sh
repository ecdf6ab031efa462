#!/bin/sh
# run.sh <property> [quick|thorough]: builds the harness against /repo and decides one property.
# exit 0: held; 1: violation; 2: no verdict (the build failed)
cd "$(dirname "$0")" || exit 2
. ./env.sh
TIER="${2:-${VERIF_TIER:-quick}}"
( cd harness && cargo build --release --offline && cargo build --release --offline --manifest-path /repo/Cargo.toml --bin svgcleaner ) >/tmp/svgcheck-build.$$ 2>&1 || { cat /tmp/svgcheck-build.$$; rm -f /tmp/svgcheck-build.$$; echo "harness build failed"; exit 2; }
rm -f /tmp/svgcheck-build.$$
exec "$CARGO_TARGET_DIR/release/svgcheck" run "$1" "$TIER"
