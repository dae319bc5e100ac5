#!/bin/bash
# cwd: the repository, built.  Exit 0: the guarantee holds, 1: it is broken.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
. /opt/vp/env.sh 2>/dev/null
cargo build --offline --quiet --lib 2>/dev/null || { echo "build failed"; exit 2; }
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
rustc --edition 2021 -O -A warnings -o "$T/demo" "$D/demo.rs" --extern starry="$R/target/debug/libstarry.rlib" -L dependency="$R/target/debug/deps" || { echo "demo does not compile"; exit 2; }
cd "$T" || exit 2
timeout 120 ./demo
rc=$?
echo "demo exit $rc"
exit $rc
