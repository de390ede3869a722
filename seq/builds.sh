#!/bin/bash
# builds.sh ID: explores the scenarios of ID in every build of the library and on other machines.
# VERIF_DIR is /verif, VERIF_TIER the tier.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
target="$here/../target"
log="$(mktemp -d)" || exit 2
trap 'rm -rf "$log"' EXIT
cd "$here" || exit 2

build() { # NAME PROFILE-DIRECTORY CARGO-ARGUMENTS..
  local n="$1" d="$2"
  shift 2
  rm -rf "$target/$n/$d"/.fingerprint/osmpbf-*
  cargo build --offline -q --target-dir "$target/$n" "$@" || touch "$log/failed"
}
machines=(wasm32-unknown-unknown s390x-unknown-linux-gnu)
build plain plain --profile plain &
build zlib release --release --no-default-features --features zlib &
build zlib-ng release --release --no-default-features --features zlib-ng &
wait
for m in "${machines[@]}"; do
  ./machine.sh "$m" build >"$log/$m" 2>&1 &
done
wait
[ -e "$log/failed" ] && exit 2

export VERIF_STATS="$log/stats"
echo "$1: built after $SECONDS s"
for b in plain/plain zlib/release zlib-ng/release; do
  VERIF_BUILD="${b%/*}" "$target/$b/seqmc" run "$1" || exit
done
for m in "${machines[@]}"; do
  # a run has 15 minutes; the evidence lists what was explored
  if [ "$VERIF_TIER" != thorough ] && [ $SECONDS -gt 540 ]; then
    echo "$1: $m left out, $SECONDS s are over"
    continue
  fi
  "$target/plain/plain/seqmc" machines "$1" "$here/machine.sh" "$m" || { s=$?; [ $s = 1 ] || cat "$log/$m"; exit $s; }
done
