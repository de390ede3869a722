#!/bin/bash
# vendor.sh LOCK DIR: a cargo directory source with the crates of LOCK and those of the standard library
lock="$1"; out="$2"
rm -rf "$out"; mkdir -p "$out"
std="$(rustc +nightly --print sysroot)/lib/rustlib/src/rust/library/vendor"
for d in "$std"/*; do ln -s "$d" "$out/$(basename "$d")"; done
cargo_home="${CARGO_HOME:-$HOME/.cargo}"
awk '/^\[\[package\]\]/{n=v=c=""} /^name = /{n=$3} /^version = /{v=$3} /^checksum = /{print n, v, $3}' "$lock" | tr -d '"' | while read -r n v c; do
  [ -e "$out/$n-$v" ] && continue
  crate=$(ls "$cargo_home"/registry/cache/*/"$n-$v.crate" | head -1)
  tar -xzf "$crate" -C "$out" || exit 1
  echo "{\"files\":{},\"package\":\"$c\"}" > "$out/$n-$v/.cargo-checksum.json"
done
