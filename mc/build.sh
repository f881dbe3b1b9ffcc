#!/bin/bash
# build.sh <target-dir> <features> <bin...>
set -e
cd "$(dirname "$0")"
T=$1; F=$2; shift 2
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$T
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cforce-frame-pointers=no -Zub-checks=yes --cap-lints=allow"
B=()
for b in "$@"; do
  B+=(--bin "$b")
  case $b in seq|conc) F=$F,duts;; ring) F=$F,rings;; esac
done
exec cargo build --offline --release --target x86_64-unknown-linux-gnu --no-default-features --features "$F" "${B[@]}"
