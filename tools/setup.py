#!/usr/bin/env python3
"""setup: only checks that the tools the checks need are there (every check builds from /repo's current tree itself)"""
import shutil, sys
missing = [t for t in ("clang++-18", "ninja", "python3") if not shutil.which(t) and not shutil.which(t.replace("-18", ""))]
print("missing: " + ", ".join(missing) if missing else "ok")
sys.exit(1 if missing else 0)
