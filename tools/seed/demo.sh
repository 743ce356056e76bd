#!/bin/bash
# run in the repository: exit 0 if it behaves, nonzero if not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -r -- "$d"' EXIT
mkdir -p "$d/demo/src"
cp "$here/main.rs" "$d/demo/src/main.rs"
cat > "$d/demo/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
liso = { path = "$repo", features = ["wrap", "history", "completion", "global", "capture-stderr"] }
libc = "0.2"
X
cp "$repo/Cargo.lock" "$d/demo/Cargo.lock" 2>/dev/null
export CARGO_TARGET_DIR="$d/target"
cargo build --offline --quiet --manifest-path "$d/demo/Cargo.toml" || { rm -f "$d/demo/Cargo.lock"; cargo build --offline --quiet --manifest-path "$d/demo/Cargo.toml"; } || exit 2
export DEMO="$d/target/debug/demo" DEMO_DIR="$d"
cd "$d" || exit 3
if [ -f "$here/demo.py" ]; then timeout 120 python3 "$here/demo.py"; else timeout 120 "$DEMO"; fi
