#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Builds the checker against /repo's current tree and runs one property check.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export CARGO_NET_OFFLINE=true
export HTPCHECK_ROOT="$HERE"
export HTPCHECK_TIER="${2:-quick}"
LOG="$(mktemp)"
trap 'rm -f "$LOG"' EXIT
if ! cargo build --release --offline --manifest-path "$HERE/harness/Cargo.toml" >"$LOG" 2>&1; then
  cat "$LOG" >&2
  echo "build of the checker against /repo failed" >&2
  exit 2
fi
mkdir -p "$HERE/evidence" "$HERE/replays"
"$HERE/harness/target/release/htpcheck" check "$1"
exit $?
