#!/bin/bash
# Builds the simulator from /repo's current tree and runs one check.
# usage: check.sh ID [--thorough]
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
log=$(mktemp) || exit 2
if ! cargo build --release --offline >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "the simulator does not build" >&2
  exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec ./target/release/ksim check "$@"
