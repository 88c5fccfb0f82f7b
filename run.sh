#!/bin/bash
# run.sh build | check ID | replay FILE | ... : builds the simulator against
# /repo's working tree (instrumented) and runs it.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$HERE"
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin${PATH:+:$PATH}"
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$HERE/target"
export RUSTFLAGS="-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard -Ccodegen-units=16"
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTDOCFLAGS
T=x86_64-unknown-linux-gnu
build() {
    # never trust mtimes for the code under test
    rm -rf "$CARGO_TARGET_DIR/$T/debug/.fingerprint/"curvo-*
    (cd "$HERE/sim" && cargo build --offline --locked --target $T) >"$HERE/target/build.log" 2>&1
}
mkdir -p "$HERE/target"
if [ -z "$VERIF_NO_BUILD" ]; then
    if ! build; then
        tail -n 60 "$HERE/target/build.log" >&2
        echo "build of the simulator failed" >&2
        exit 3
    fi
fi
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/$T/debug/curvosim" "$@"
