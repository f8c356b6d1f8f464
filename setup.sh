#!/bin/bash
# Builds the checker against /repo (also done by every check).
set -eu
HERE="$(cd "$(dirname "$0")" && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
cargo build --release --offline --manifest-path "$HERE/harness/Cargo.toml"
mkdir -p "$HERE/evidence" "$HERE/replays"
