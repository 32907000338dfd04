#!/bin/bash
# Nothing to build: the code under test is imported from the working tree.
# Check that the interpreter and libraries the checks need are present.
set -e
cd "$(dirname "$0")/.."
/usr/local/bin/python3-vt -c 'import hypothesis, networkx; print("hypothesis", hypothesis.__version__)'
mkdir -p evidence replays
