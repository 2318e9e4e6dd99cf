#!/bin/bash
# RUSTC_WRAPPER: instruments only the code under test.
rc="$1"; shift
prev=; name=
for a in "$@"; do [ "$prev" = --crate-name ] && name="$a"; prev="$a"; done
case "$name" in
congee|sut) exec "$rc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-read-before-write=1 -Cunsafe-allow-abi-mismatch=sanitizer --cfg congee_verif;;
mc) exec "$rc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer;;
esac
exec "$rc" "$@"
