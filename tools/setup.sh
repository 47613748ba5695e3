#!/bin/bash
# Builds the compiler once so that the Go and C++ caches under /verif/.cache are warm.
cd "$(dirname "$0")/.." || exit 1
mkdir -p .cache .work evidence
VERIF_TIER=quick python3 tools/warm.py
