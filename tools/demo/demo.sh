#!/bin/bash
# Builds main.rs against this tree's ssz-multiproofs (its sources only, in a scratch directory) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS= CARGO_TARGET_DIR="$scratch/target"
mkdir -p "$scratch/ssz/src" "$scratch/demo/src"
cp "$here/Cargo.lock" "$scratch/"
cp "$here/main.rs" "$scratch/demo/src/main.rs"
cat > "$scratch/Cargo.toml" <<EOF
[workspace]
resolver = "2"
members = ["ssz", "demo"]
[profile.release]
opt-level = 1
overflow-checks = false
EOF
cat > "$scratch/ssz/Cargo.toml" <<EOF
[package]
name = "ssz-multiproofs"
version = "1.0.0"
edition = "2024"
[lib]
path = "$repo/ssz-multiproofs/src/lib.rs"
[features]
builder = []
progress-bar = []
[dependencies]
serde = { version = "1.0", features = ["derive"] }
sha2 = { version = "0.10.9", default-features = false }
alloy-primitives = "1.2.1"
bitvec = { version = "1", features = ["serde"] }
thiserror = "2.0.6"
tracing = "0.1.41"
EOF
cat > "$scratch/demo/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
ssz-multiproofs = { path = "../ssz" }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
bincode = "1.3"
bitvec = { version = "1", features = ["serde"] }
sha2 = "0.10.9"
EOF
cd "$scratch" && cargo build --quiet --offline --locked --release -p demo || exit 2
timeout 60 "$scratch/target/release/demo"
