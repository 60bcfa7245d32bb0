#!/bin/bash
# builds demo.rs against the crates of the current directory (/repo) and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh >/dev/null 2>&1
unset CARGO_TARGET_DIR
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /opt/vp/Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
@DEPS@
[profile.dev]
opt-level = 1
TOML
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet 2>"$d/log" || { tail -40 "$d/log"; exit 3; }
cd "$d" && timeout ${DEMO_TIMEOUT:-120} "$d/target/debug/demo"
