#!/usr/bin/env python3
"""Optional warm-up: configures and builds the sanitizer flavours once so that later checks only rebuild what changed."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
from registry import CHECKS
todo = {}
for c in CHECKS.values():
    todo.setdefault(c.get("flavour", "asan"), set()).update(c["libs"])
for fl, libs in todo.items():
    check.build_libs(fl, sorted(libs))
print("setup ok")
