#!/bin/bash
# Every check builds what it needs in its own scratch directory; this only makes sure that the tools are there and
# that the extractor builds offline.
d=$(dirname "$(dirname "$(readlink -f "$0")")")
export PATH=/root/.cargo/bin:/app/lean4-4.33.0/build/release/stage1/bin:$PATH
t=$(mktemp -d) || exit 1
trap 'rm -rf -- "$t"' EXIT
lean --version && python3 --version && CARGO_TARGET_DIR=$t cargo +nightly build --offline --quiet --manifest-path "$d/extract/Cargo.toml"
