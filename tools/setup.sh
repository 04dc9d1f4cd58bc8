#!/bin/sh
# Prebuild of the verifier (every check builds it itself when it is missing).
cd "$(dirname "$0")/.." || exit 2
mkdir -p .cache evidence
python3 tools/check.py --build-engine
