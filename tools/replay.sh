#!/bin/bash
# Usage: replay.sh FILE - runs the case of a replay file against /repo's current code.
here=$(cd "$(dirname "$0")/.." && pwd)
exec python3 "$here/tools/check.py" --replay "$1"
