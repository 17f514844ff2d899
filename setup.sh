#!/bin/bash
# Nothing to install: the checks compile their harnesses themselves, offline.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence/replays
clang++ --version >/dev/null
python3 -c 'import specs'
