#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Rebuilds the simulation a property needs from /repo's working tree and searches it.
# Exit 0: the property held on everything explored. 1: violated. 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
property=${1:?usage: check.sh PROPERTY [quick|thorough]}
tier=${2:-${VERIF_TIER:-quick}}
. ./build.sh
case "$property" in
  C*) binary=sim-ffi ;;
  Y*) binary=sim-ossync ;;
  Q*) binary=sim-sql ;;
  B*) binary=sim-tool ;;
  *) binary=sim-os ;;
esac
build "$binary" || { echo "the simulation does not build" >&2; exit 2; }
mkdir -p evidence replays
exec "sim/target/x86_64-unknown-linux-gnu/debug/$binary" check --property "$property" --tier "$tier" \
  --seed "${VERIF_SEED:-1}" --evidence "evidence/$property.json" --replays replays --known known_findings.json
