#!/usr/bin/env python3
"""Builds the model library and /repo's crates once (only warms the build cache: every check builds what it needs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gen import core
p = core.Program("setup")
p.add_bin("b0", "use mc as _; use structmeta as _;", [], "fn main() {}")
errors = p.build() or p.build("check")
if errors:
    sys.exit(errors[0][2])
print("ready")
