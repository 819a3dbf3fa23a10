#!/bin/bash
# Warms the build of /repo's current tree with the harness crates. Every check
# rebuilds by itself when this has not run or the tree has changed.
cd "$(dirname "$0")" && python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from vlib import core
core.build()
print("built", core.source_hash())
P
