#!/bin/bash
# Builds the coverage-guided target: the same generators and oracles as harness/, with libFuzzer's
# bytes as their random choices, and edge coverage of the repository's crates.
# proptest's pass-through generator gives each derived generator half of the bytes, which leaves
# nothing for deep strategies; rng.patch lets them share the bytes.
set -eu
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target" RUSTC_WRAPPER="$PWD/wrap.sh"
if [ ! -e proptest/.ready ]; then
    src=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/proptest-1.12.0 | head -1)
    mkdir -p proptest
    cp -r "$src/Cargo.toml" "$src/src" proptest/
    for d in benches tests examples; do [ -d "$src/$d" ] && cp -r "$src/$d" proptest/; done
    patch -s -p1 -d proptest <rng.patch
    touch proptest/.ready
fi
for p in common reader writer decoder encoder merger vcdiff; do
    cargo clean --offline --release -p "smdiff-$p" >/dev/null 2>&1 || true
done
cargo build --release --offline
