#!/bin/bash
# compiles demo.rs against the library build.sh left in ./target and runs it in a scratch folder
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
L=$(find "$PWD/target/debug" -name 'libhexodsp-*.rlib' -printf '%T@ %p\n' | sort -rn | head -1 | cut -d' ' -f2-)
FL=$(find "$PWD/target/debug" -name '*.rlib' -o -name '*.so' | xargs -n1 dirname | sort -u | sed 's/^/-Ldependency=/')
rustc --edition 2021 -A warnings --extern hexodsp="$L" --extern hexodsp="${L%.rlib}.rmeta" $FL "$D/demo.rs" -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
