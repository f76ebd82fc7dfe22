#!/bin/bash
# Runs the recorded case.json (one input that the property speaks about) against this tree's sources.
# support.tar.xz has what is needed to compile them offline and to drive them with the case;
# everything is built and run in a scratch directory, removed afterwards.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. "$here/case.env" # PKG, PROP and BINS
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS= CARGO_TARGET_DIR="$scratch/target"
export VERIF_DIR="$scratch" RUST_BACKTRACE=0
tar -C "$scratch" -xJf "$here/support.tar.xz" || exit 2
cp "$here/case.json" "$scratch/case.json"
cd "$scratch" || exit 2
grep -rlZ '"/repo/' --include='*.toml' --include='*.rs' . | xargs -0 -r sed -i "s#\"/repo/#\"$repo/#g"
sed -i 's/^opt-level = 2/opt-level = 1/' Cargo.toml
cargo build --quiet --offline --profile verif -p "$PKG" $BINS || exit 2
timeout 100 "$scratch"/target/*/"$PKG" "$PROP" --replay "$scratch/case.json"
