#!/usr/bin/env python3
"""Setup: nothing is kept from here (each check builds from /repo's current tree in
its own copy of the sandbox); it only makes sure that the tools are there."""
import shutil, sys
missing = [t for t in ("clang++", "g++", "python3") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")
