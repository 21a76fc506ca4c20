#!/usr/bin/env python3
"""setup_cmd: build the executables under test from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness
harness.build(("slang", "slang-dbg", "slang-pkg"))
print("built", harness.OUT)
