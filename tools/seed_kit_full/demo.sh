#!/bin/bash
# Run in the crate's directory after its build: 0 where the demonstrated behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/stubs" "$work/stubs" || exit 2
python3 "$here/lay.py" "$PWD" "$work/surfrs" "$work/stubs" || exit 2
mkdir -p "$work/demo/src"
cp "$here/demo.rs" "$work/demo/src/main.rs"
cp "$here/Cargo.lock" "$work/demo/Cargo.lock"
cat > "$work/demo/Cargo.toml" <<'TOML'
[package]
name = "driver-full"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
surfrs = { path = "../surfrs" }
serde_json = "1.0"
serde = "1.0"
chrono = { version = "0.4", features = ["serde"] }
geojson = "0.24.0"
num-traits = "0.2.15"
gribberish = { path = "../stubs/gribberish" }

[profile.dev]
debug = 0
TOML
cd "$work/demo" || exit 2
CARGO_TARGET_DIR="$work/target" cargo build --offline -q 2> "$work/log" || { tail -20 "$work/log"; exit 2; }
timeout 120 "$work/target/debug/driver-full"
