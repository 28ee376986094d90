#!/bin/bash
# replay.sh PROPERTY SEED CASE LITERALS: run one replay case against /repo
d=$(dirname "$(dirname "$(readlink -f "$0")")")
t=$(mktemp -d) || exit 1
trap 'rm -rf -- "$t"' EXIT
CARGO_TARGET_DIR=$t cargo +stable build --offline --quiet --manifest-path "$d/replay/Cargo.toml" ${GSV_RELEASE:+--config profile.dev.package.groth-sahai.debug-assertions=false --config profile.dev.package.groth-sahai.overflow-checks=false} || exit 1
# C03 learns the order of the draws from the earlier cases: run them too
if [ "$1" = C03 ]; then set -- "$1" "$2" "$3" "$4" 100000 --max $(($3 + 1)); else set -- "$1" "$2" "$3" "$4" 0 --case "$3"; fi
"$t/debug/gsreplay" "$1" "$2" "$5" "$6" "$7" ${4:+--lits "$4"}
