#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild the explorer with the server from
# /repo's working tree and decide the property.
cd "$(dirname "$0")" || exit 2
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT
bin=true
case "$1" in P02|P04|P08|P09|P15|P19) bin="bash mc/build_bin.sh" ;; esac
if ! { bash mc/build.sh && $bin; } >"$log" 2>&1; then
  tail -40 "$log"
  echo "no verdict: the explorer does not build with this tree"
  exit 2
fi
target/x86_64-unknown-linux-gnu/debug/mc check "$1" --tier "${2:-quick}" 2>/dev/null
