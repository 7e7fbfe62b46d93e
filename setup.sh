#!/bin/bash
# Builds everything the checks use (each check also rebuilds what it needs).
set -eu
ROOT="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$ROOT/target" CARGO_NET_OFFLINE=true
for p in core zoo; do
  (cd "$ROOT/$p" && cargo build --release --offline --quiet)
done
python3 "$ROOT/tools/gen.py" build C14 quick
python3 "$ROOT/tools/gen.py" build C21 quick
