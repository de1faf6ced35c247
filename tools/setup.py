#!/usr/bin/env python3
"""Checks that the tools the framework needs are there (every check builds what it needs itself)."""
import shutil, sys
missing = [t for t in ("cmake", "ninja", "g++") if not shutil.which(t)]
if missing: sys.exit("missing: " + " ".join(missing))
print("ok")
