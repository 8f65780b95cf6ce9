#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Builds nothing: each
check builds its driver from /repo's working tree."""
import shutil
import sys

missing = [t for t in ("g++", "ninja", "xsdcxx", "pkg-config")
           if not shutil.which(t)]
if missing:
    print("missing: " + ", ".join(missing))
    sys.exit(1)
print("ready")
