#!/bin/bash
# Everything is rebuilt by each check from the sources; this only verifies the tools.
set -eu
cd "$(dirname "$0")"
for t in clang clang++ objcopy python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence build replays
echo ok
