#!/bin/bash
# Builds the symbolic executor and, from /repo's current source, the harness binary and its LLVM IR.
# usage: build.sh [ship]   (ship: also the profile without debug assertions; prints nothing on success; exit 2 on failure)
set -u
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR CARGO_INCREMENTAL
mkdir -p out
exec 9>out/.build.lock
flock 9
(cd engine && cargo build --offline --release >../out/engine.log 2>&1) & e=$!
(cd harness && cargo rustc --offline --release -- --emit=llvm-ir,link >../out/harness.log 2>&1) & h=$!
if [ "${1:-}" = ship ]; then (cd harness && cargo rustc --offline --profile ship -- --emit=llvm-ir,link >../out/ship.log 2>&1) || rm -f "$PWD"/harness/target/ship/deps/harness-*.ll; fi
r=0
wait $e || { echo "engine build failed:"; tail -30 out/engine.log; r=2; }
wait $h || { echo "harness build against /repo failed:"; grep -E "^error" -A12 out/harness.log | head -60; r=2; }
# only the IR of the binary just built
ls -t "$PWD"/harness/target/release/deps/harness-*.ll 2>/dev/null | tail -n +2 | xargs -r rm -f
ls -t "$PWD"/harness/target/ship/deps/harness-*.ll 2>/dev/null | tail -n +2 | xargs -r rm -f
exit $r
