#!/bin/bash
# Builds every simulation once.
cd "$(dirname "$0")" || exit 1
. ./build.sh
for binary in sim-ffi sim-os sim-ossync sim-sql sim-tool; do
  [ -d "sim/$binary" ] || continue
  build "$binary" || exit 1
done
