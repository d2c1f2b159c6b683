#!/bin/bash
# bash run.sh setup | check <property> | replay <file> | digests <property> [n]
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
export CARGO_TARGET_DIR="$PWD/target"
export CARGO_NET_OFFLINE=true
build() {
  local log="$PWD/out/build-$1.log"
  mkdir -p "$PWD/out"
  if ! cargo build --release --offline --manifest-path "$PWD/$1/Cargo.toml" >"$log" 2>&1; then
    echo "harness error: $1 does not build against the current tree" >&2
    grep -E '^(error|warning: unused)' -A 12 "$log" | head -60 >&2
    exit 3
  fi
}
world_of() {
  case "$1" in
    C0[1-9] | C17) echo treesim ;;
    *) echo worldb ;;
  esac
}
case "${1:-}" in
  setup)
    build treesim
    if [ -d worldb ]; then build worldb; fi
    echo "built"
    ;;
  check)
    w=$(world_of "$2"); build "$w"
    exec "$CARGO_TARGET_DIR/release/$w" check "$2"
    ;;
  digests)
    w=$(world_of "$2"); build "$w"
    exec "$CARGO_TARGET_DIR/release/$w" digests "$2" "${3:-500}"
    ;;
  replay)
    p=$(grep -o '"property": *"[A-Z0-9]*"' "$2" | head -1 | grep -o '[A-Z][0-9]*')
    w=$(world_of "$p"); build "$w"
    exec "$CARGO_TARGET_DIR/release/$w" replay "$2"
    ;;
  *)
    echo "usage: run.sh setup | check <property> | replay <file> | digests <property> [n]" >&2
    exit 3
    ;;
esac
