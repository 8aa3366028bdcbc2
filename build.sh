#!/bin/bash
# Builds the harness, the CLI and the Python module from /repo's current working tree, offline.
# usage: build.sh [rust|python|all]
set -e
cd "$(dirname "$0")"
WHAT=${1:-all}
export HOME=/root RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never PYO3_PYTHON=/usr/bin/python3
exec 9>.build.lock
flock 9
# Cargo decides by file times; a tree restored with old times must still be rebuilt.
SHA=$(cd /repo && find src bindings/python/src Cargo.toml bindings/python/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
build() { # dir packages...
    local dir=$1; shift
    local stamp=$dir/target/.repo-sha
    if [ -e "$dir/target" ] && [ "$(cat "$stamp" 2>/dev/null)" != "$SHA" ]; then
        for p in "$@"; do cargo clean --offline --quiet --manifest-path "$dir/Cargo.toml" -p "$p" 2>/dev/null || true; done
    fi
    cargo build --offline --quiet --manifest-path "$dir/Cargo.toml" >"$dir/build.log" 2>&1 || { grep -A12 "^error" "$dir/build.log" | head -80 >&2; rm -f "$stamp"; exit 2; }
    echo "$SHA" >"$stamp"
}
case $WHAT in rust|all) build harness tokengeex tgx-check;; esac
case $WHAT in python|all)
    if [ -d py ]; then
        build py tokengeex tokengeex-python-check
        cp -f py/target/debug/libtokengeex.so py/tokengeex.so.new
        mv -f py/tokengeex.so.new py/tokengeex.so
    fi;;
esac
