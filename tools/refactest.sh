#!/bin/sh
# Runs every check on a copy of /repo that was refactored without changing what it does (tools/refactoring.diff).
set -e
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
git -C "$d/repo" apply /verif/tools/refactoring.diff
export PIPIT_REPO="$d/repo" MC_EVIDENCE="$d/ev"
for i in $(seq -w 1 28); do
  if /verif/check C$i quick > "$d/out" 2>&1; then echo "C$i quiet"; else echo "C$i ALARM"; tail -5 "$d/out"; fi
done
