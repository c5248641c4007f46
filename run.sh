#!/bin/bash
# run.sh ID: rebuild the harness and the code under test from /repo, then run the check of property ID.
# run.sh setup: build everything once.     run.sh replay ID FILE: re-evaluate one stored case.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export RUSTUP_TOOLCHAIN=1.99.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
T="$PWD/target"
build() {
    (cd harness && cargo build --offline --target-dir "$T" "$@") >"$T/build.log" 2>&1 && return
    grep -E "^error" -A12 "$T/build.log" | head -60
    echo "HARNESS-ERROR build failed (cargo build $*)"
    exit 2
}
mkdir -p "$T" evidence
build
case "$1" in
setup) build -p zk-regex-compiler --bin zk-regex; exec "$T/debug/vharness" prepare C16 ;;
replay) build -p zk-regex-compiler --bin zk-regex; exec "$T/debug/vharness" replay "$2" "$3" ;;
C18 | C19) build -p zk-regex-compiler --bin zk-regex ;;
esac
exec "$T/debug/vharness" check "$1"
