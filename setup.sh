#!/bin/bash
# Builds the framework from the committed files: Java overrides for TLC, and a self-test of the number layer.
set -e
cd "$(dirname "$0")"
python3 -B - <<'PY'
import sys
sys.path.insert(0, ".")
from vf import core
core.java_classes()
r = core.tlc("MCBigInt")
assert r.ok, r.out
print("setup ok:", r.distinct, "states of the number self-test")
PY
