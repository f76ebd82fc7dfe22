#!/bin/bash
# run.sh PACKAGE PROPERTY [--replay FILE]: builds PACKAGE (a crate in checks/) from /repo's current
# working tree and runs the check of PROPERTY. run.sh PACKAGE alone only builds.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
export CARGO_TARGET_DIR="$VERIF_DIR/target"
# cargo trusts modification times; make it rebuild the shadowed crates when /repo's content changes
VERIF_SRC_HASH=$(cd /repo && find ssz-multiproofs core host chainspec methods -type f \
    \( -name '*.rs' -o -name '*.yaml' -o -name '*.json' -o -name '*.toml' \) -not -path '*/target/*' -print0 \
    | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
export VERIF_SRC_HASH
pkg=$1 prop=$2
shift 2 2>/dev/null
log=$(mktemp)
extra=
[ "$pkg" = gindex-checks ] && extra="-p host --bin gen_gindices --bin gindex-checks"
[ "$pkg" = host-checks ] && extra="-p host --bin zkasper_cli --bin host-checks"
if ! cargo build --quiet --offline --locked --profile verif -p "$pkg" $extra >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "ERROR: $pkg does not build" >&2
    exit 2
fi
rm -f "$log"
[ -z "$prop" ] && exit 0
exec "$CARGO_TARGET_DIR/verif/$pkg" "$prop" "$@"
