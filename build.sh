#!/bin/bash
# Builds the checkers from /repo's working tree, offline. build.sh [seq] [par]
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
here="$PWD"
[ $# = 0 ] && set -- seq par
for c; do
  export CARGO_TARGET_DIR="$here/target"
  tool=
  if [ "$c" = par ]; then
    # thread instrumentation hooks need the nightly compiler
    CARGO_TARGET_DIR="$here/target/par" RUSTC_WRAPPER="$here/par/wrap.sh" tool=+nightly
  fi
  # cargo goes by mtime: forget that osmpbf was built, so that files restored with an old mtime are seen
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/osmpbf-*
  (cd "$here/$c" && cargo $tool build --release --offline -q) || exit 2
done
