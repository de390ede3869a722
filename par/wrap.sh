#!/bin/bash
# rustc wrapper: reports memory accesses of the code under test and of the harness (with the generic
# code of rayon and std instantiated there) to rt/mc.c through the __tsan_* callbacks.
rustc="$1"; shift
name=
prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name="$a"
  prev="$a"
done
case "$name" in
  osmpbf|parmc) exec "$rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
[ "$name" = vcore ] && set -- "$@" -Cunsafe-allow-abi-mismatch=sanitizer
exec "$rustc" "$@"
