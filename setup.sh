#!/bin/bash
# The checks need no build step: only make sure that the analysers are there and tell right from wrong.
set -e
command -v frama-c >/dev/null || { echo "frama-c not found"; exit 2; }
command -v clang-18 >/dev/null || command -v clang >/dev/null || { echo "clang not found"; exit 2; }
mkdir -p "$(dirname "$0")/evidence"
python3 "$(dirname "$0")/engine/selftest.py"
