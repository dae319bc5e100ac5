#!/bin/bash
# Build the engine, the harness (against /repo's working tree) and the
# optimised whole-program IR the engine executes.  Output: /verif/build
set -e
set -o pipefail
. /opt/vp/env.sh 2>/dev/null || true
V="$(cd "$(dirname "$0")/.." && pwd)"
B="$V/build"
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
(cd "$V/engine" && cargo build --offline --release --quiet --target-dir "$B/engine" 2>"$B/engine.log") || { cat "$B/engine.log"; echo "engine build failed"; exit 2; }
H="$B/harness"
(cd "$V/harness" && RUSTFLAGS="--cfg starry_verif -Awarnings" cargo rustc --offline --locked --release --quiet --bin harness --target-dir "$H" -- -C save-temps 2>"$B/harness.log") || { tail -60 "$B/harness.log"; echo "harness build failed"; exit 2; }
SYS="$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin"
# the newest one (no pipe: a reader that stops early would end the script)
BC=
for f in "$H"/release/deps/*.lto.after-restriction.bc; do
  if [ -z "$BC" ] || [ "$f" -nt "$BC" ]; then BC="$f"; fi
done
if [ ! -f "$B/m.ll" ] || [ "$BC" -nt "$B/m.ll" ] || [ "$B/engine/release/engine" -nt "$B/m.ll" ]; then
  "$SYS/opt" -passes=globaldce "$BC" -S -o "$B/a.ll"
  "$B/engine/release/engine" patch "$B/a.ll" "$B/b.ll"
  "$SYS/opt" -passes='globaldce,default<O1>' -vectorize-slp=false -vectorize-loops=false "$B/b.ll" -S -o "$B/m.ll.tmp"
  mv "$B/m.ll.tmp" "$B/m.ll"
  rm -f "$B/a.ll" "$B/b.ll"
fi
