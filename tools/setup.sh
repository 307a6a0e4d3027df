#!/bin/bash
# builds the extractor and the replay engine from the committed files (offline)
cd "$(dirname "$0")/.." || exit 1
python3 tools/check.py --build
