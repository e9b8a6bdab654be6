#!/bin/bash
# Nothing to compile: parses every specification module once, so that a broken toolchain
# shows here rather than in a check.
cd "$(dirname "$0")/spec" || exit 1
mkdir -p ../evidence ../replays
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
export T
ls *.tla | xargs -P 8 -I{} sh -c 'tla-sany {} > "$T/{}.log" 2>&1 || { cat "$T/{}.log"; exit 255; }' || exit 1
/opt/venv/bin/python -c 'import numpy, scipy, sklearn, pandas, shapely' || exit 1
echo setup ok
