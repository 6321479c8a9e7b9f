#!/bin/bash
# builds the engine and every harness once from /repo's current sources (checks rebuild what changed)
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay .cache
python3-vt engine/build.py --all
