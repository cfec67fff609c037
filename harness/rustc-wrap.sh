#!/bin/bash
# RUSTC_WRAPPER: coverage and compare instrumentation for the crates of /repo only.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  bip39|secp256k1_bip32|keychain|rust_keychain)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-sanitizer-coverage-inline-8bit-counters \
      -Ccodegen-units=4 ;;
  *) exec "$rustc" "$@" ;;
esac
