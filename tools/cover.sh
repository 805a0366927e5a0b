#!/bin/bash
# cover.sh OUT PROP... : runs the quick checks with coverage and writes OUT/cover.txt and
# OUT/uncovered.txt (statements of the tree that no run executed).
HERE=$(cd "$(dirname "$0")/.." && pwd); OUT=$1; shift
mkdir -p "$OUT/data"
for P in "$@"; do
  mkdir -p "$OUT/data/$P"
  SADL_COVER=1 SADL_KEEP="$OUT/src-$P" GOCOVERDIR="$OUT/data/$P" "$HERE/check.sh" $P quick -evidence "" -replays "" $SIMARGS | tail -1
done
