#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild the harness against /repo's working tree, run one check.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" CARGO_TARGET_DIR="$ROOT/target" CARGO_NET_OFFLINE=true
PROP="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
ulimit -c 0
FEATURES=""
case "$PROP" in
  C14|C21) exec python3 "$ROOT/tools/gen.py" check "$PROP" "$TIER" ;;
  C13) PKG=zoo; BIN=zoo; if [ "$TIER" = thorough ]; then FEATURES="--features deep"; fi ;;
  *) PKG=core; BIN=mc ;;
esac
mkdir -p "$ROOT/target" "$ROOT/replays" "$ROOT/evidence"
build() {
  (cd "$ROOT/$1" && cargo build --release --offline --quiet $2) >"$ROOT/target/build-$1.log" 2>&1
}
if ! build "$PKG" "$FEATURES"; then
  if [ "$PROP" = C13 ] && build core "" && grep -q '^error\[E' "$ROOT/target/build-zoo.log"; then
    # the crate builds, but a library type no longer declares a schema as it should
    cp "$ROOT/target/build-zoo.log" "$ROOT/replays/C13-build.case"
    python3 -c "import sys; sys.path.insert(0, '$ROOT/tools'); import gen; gen.write_failed_evidence('C13', '$TIER')"
    grep -A8 '^error' "$ROOT/target/build-zoo.log" | head -40
    echo "VIOLATION property=C13 replay=$ROOT/replays/C13-build.case"
    exit 1
  fi
  echo "the harness does not build against /repo:" >&2
  tail -40 "$ROOT/target/build-$PKG.log" >&2
  exit 2
fi
exec "$ROOT/target/release/$BIN" "$PROP" "$TIER"
