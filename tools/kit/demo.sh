#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it in a
# scratch directory. Exit 0: behaves as promised.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/work"; cp "$here"/*.rs "$t/src/"; cp "$here/Cargo.lock" "$t/" 2>/dev/null
cat > "$t/Cargo.toml" <<T
[package]
name = "mc-onenote"
version = "0.1.0"
edition = "2024"
[workspace]
[[bin]]
name = "demo"
path = "src/main.rs"
[dependencies]
onenote_parser = { path = "$repo" }
libc = "0.2"
T
CARGO_TARGET_DIR="$t/target" cargo build --offline -q --manifest-path "$t/Cargo.toml" 2>"$t/log" || { cat "$t/log"; exit 98; }
cd "$t/work" && timeout 120 "$t/target/debug/demo"
