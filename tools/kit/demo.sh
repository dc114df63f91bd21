#!/bin/bash
# Builds the program from the current directory (/repo) and runs the scenario beside this file.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
export pnpm_config_offline=true pnpm_config_fetch_retries=0
export PATH=/root/.cargo/bin:$PATH
scratch="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/kit/." "$scratch/"
cp "$here/scenario.rs" "$scratch/demo/src/main.rs"
sed -i "s#@REPO@#$repo#" "$scratch"/*/Cargo.toml
cd "$scratch"
export CARGO_TARGET_DIR="${DEMO_TARGET:-$scratch/target}"
if ! cargo build --offline --quiet 2>build.log; then cat build.log; exit 0; fi
timeout 60 "$CARGO_TARGET_DIR/debug/demo" "$CARGO_TARGET_DIR/debug"
