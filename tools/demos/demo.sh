#!/bin/bash
# Builds the small program beside this file against the library in the current directory
# (the repository) in a scratch folder, and runs it. Exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
s=$(mktemp -d) || exit 3
trap 'rm -rf "$s"' EXIT
mkdir "$s/src"
cp "$here/demo.rs" "$s/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$s/Cargo.lock"
cat > "$s/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rawloader = { path = "$repo" }
[profile.dev]
opt-level = 1
T
(cd "$s" && CARGO_TARGET_DIR="$s/target" cargo build --offline -q) > "$s/log" 2>&1 || { tail -20 "$s/log"; echo "demo does not build"; exit 3; }
cd "$s"
timeout 200 "$s/target/debug/demo" "$here" "$s" > "$s/out" 2> "$s/err"
rc=$?
grep -v " ms for " "$s/out" | tail -20
tail -5 "$s/err"
exit $rc
