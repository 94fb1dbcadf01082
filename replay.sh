#!/bin/bash
# Usage: replay.sh FILE — rebuilds and repeats a failing execution exactly.
cd "$(dirname "$0")" || exit 2
file=$(realpath "${1:?usage: replay.sh FILE}")
. ./build.sh
property=$(basename "$file" | cut -d- -f1)
case "$property" in
  C*) binary=sim-ffi ;; Y*) binary=sim-ossync ;; Q*) binary=sim-sql ;; B*) binary=sim-tool ;; *) binary=sim-os ;;
esac
build "$binary" || exit 2
exec "sim/target/x86_64-unknown-linux-gnu/debug/$binary" replay "$file"
