#!/usr/bin/env python3
"""setup: the harnesses are built by each check from the current tree; here only
the tools they need are looked for."""
import shutil, sys
miss = [t for t in ("g++", "valgrind") if not shutil.which(t)]
print("missing: %s" % miss if miss else "tools present")
sys.exit(1 if miss else 0)
