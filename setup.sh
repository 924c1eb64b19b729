#!/bin/bash
# Build the replay harness and warm the extraction target directory.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0
exec python3-vt "$here/vc/main.py" --setup
