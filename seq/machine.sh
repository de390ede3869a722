#!/bin/bash
# machine.sh TARGET ARGS..: runs the checker with ARGS on another machine: WebAssembly (32-bit words)
# in node, anything else in the interpreter of the nightly compiler. Offline.
# machine.sh TARGET build: only builds
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
t="$1"
shift
cd "$here" || exit 2
case "$t" in
  wasm32*)
    export CARGO_TARGET_DIR="$here/../target/wasm"
    if [ "$1" = build ]; then
      # the standard library is built too; its crates and ours have to come from one directory
      ./vendor.sh Cargo.lock ../target/wasm-vendor || exit 2
      rm -rf "$CARGO_TARGET_DIR/$t"/release/.fingerprint/osmpbf-* "$CARGO_TARGET_DIR/$t"/release/build/osmpbf
      RUSTFLAGS="-Cpanic=unwind -Clink-arg=--allow-undefined -Clink-arg=-zstack-size=16777216" \
        exec cargo +nightly build --release --offline -q -Zbuild-std=std,panic_unwind --target "$t" \
        --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$here/../target/wasm-vendor\""
    fi
    shift
    exec node wasm.mjs "$CARGO_TARGET_DIR/$t/release/seqmc.wasm" "$@"
    ;;
  *)
    export CARGO_TARGET_DIR="$here/../target/miri"
    export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows"
    [ "$1" = build ] && rm -rf "$CARGO_TARGET_DIR/$t"/debug/.fingerprint/osmpbf-* "$CARGO_TARGET_DIR/$t"/debug/build/osmpbf
    [ "$1" = build ] && set -- none
    exec cargo +nightly miri run -q --offline --target "$t" -- "$@"
    ;;
esac
