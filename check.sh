#!/bin/bash
# usage: check.sh <ID> [--replay <file>] [lsmon args...]
# Builds the monitors against /repo's current working tree and runs the check of one property.
# exit 0 held, 1 VIOLATION, 2 no verdict (build failure, nothing observed, ...)
cd "$(dirname "$0")" || exit 2
V=$(pwd)
ID=$1; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="${LSMON_TARGET:-$V/build/harness}"
mkdir -p "$V/build" "$V/evidence" "$V/replays"
if [ "$ID" = "--setup" ]; then
  # every check builds for itself; setup only proves that the tools are there
  cargo --version && rustc --version && exit 0
  exit 2
fi
if [ "$ID" = "C24" ]; then
  exec python3 tools/c24.py "$@"
fi
LOG="$V/build/build-$ID.log"
if ! (cd harness && cargo build --release --offline --no-default-features --features "$ID") >"$LOG" 2>&1; then
  echo "BUILD-FAILED property=$ID (see below)"; tail -40 "$LOG"; exit 2
fi
export LSMON_VERIF="$V"
if [ "$1" = "--replay" ]; then
  exec "$CARGO_TARGET_DIR/release/lsmon" "$@"
fi
exec "$CARGO_TARGET_DIR/release/lsmon" --prop "$ID" "$@"
