#!/bin/sh
# Builds the harness from the committed files (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --release --offline && cargo build --release --offline --manifest-path /repo/Cargo.toml --bin svgcleaner
