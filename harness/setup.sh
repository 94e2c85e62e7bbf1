#!/bin/bash
# Builds what the checks need: the optimised program and the shim.
cd "$(dirname "$0")/.." || exit 1
exec python3 harness/build.py
