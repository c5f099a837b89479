#!/bin/bash
# Nothing has to be installed: every check builds what it needs from /repo's working tree.
# This only verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in g++ clang++ python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence replays
python3 - <<'P'
import sys; sys.path.insert(0, "bin")
import props; print(len(props.CHECKS), "checks registered")
P
