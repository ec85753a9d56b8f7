#!/bin/bash
# bash check.sh build | PROPERTY quick|thorough | replay FILE
# Rebuilds the simulator against /repo's working tree, then runs one check.
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.96-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$V/target SIMREK_DIR=$V RUSTC_WRAPPER=
unset RUST_BACKTRACE
mkdir -p "$CARGO_TARGET_DIR"
(
    flock 9
    # Cargo looks at time stamps only; go by the contents of the sources as well.
    h=$( (cd /repo && find src Cargo.toml Cargo.lock build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; cd "$V/harness" && find . -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum)
    if [ "$h" != "$(cat "$CARGO_TARGET_DIR/built-from" 2>/dev/null)" ] || [ ! -x "$CARGO_TARGET_DIR/debug/simrek" ]; then
        rm -f "$CARGO_TARGET_DIR/built-from"
        cargo clean -q --offline --manifest-path harness/Cargo.toml -p rekordcrate -p simrek >/dev/null 2>&1
        cargo build -q --offline --manifest-path harness/Cargo.toml >"$CARGO_TARGET_DIR/build.log" 2>&1 || { cat "$CARGO_TARGET_DIR/build.log" >&2; exit 2; }
        if [ -f harness/shim/shim.c ]; then
            gcc -O1 -g -w -shared -fPIC -o "$CARGO_TARGET_DIR/shim.so" harness/shim/shim.c -ldl || exit 2
        fi
        echo "$h" >"$CARGO_TARGET_DIR/built-from"
    fi
) 9>"$CARGO_TARGET_DIR/lock" || { echo "cannot build" >&2; exit 2; }
case "$1" in
build) exit 0 ;;
replay) exec "$CARGO_TARGET_DIR/debug/simrek" replay "$2" ;;
selftest) exec "$CARGO_TARGET_DIR/debug/simrek" selftest "$2" --runs "${3:-400}" ;;
*) exec "$CARGO_TARGET_DIR/debug/simrek" check "$1" --tier "${2:-quick}" ;;
esac
