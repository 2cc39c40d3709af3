#!/usr/bin/env python3
"""Sanity of the sandbox: the compilers and headers the checks need are there."""
import shutil, sys
missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("ok")
