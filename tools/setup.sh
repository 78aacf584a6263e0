#!/bin/bash
# Builds the tools of this folder from the committed files.
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
exec python3 tools/check.py --setup
