#!/bin/bash
# builds the extractor (clang libTooling) and warms the program cache
set -e
cd "$(dirname "$0")"
bash analyzer/build.sh
python3 analyzer/prog.py
