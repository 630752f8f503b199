#!/usr/bin/env python3
"""Setup: the framework is built by each check from /repo's tree; this only
confirms that the tools it needs are present."""
import shutil
import sys

missing = [t for t in ("g++", "clang++", "valgrind", "python3") if not shutil.which(t)]
if missing:
    print("missing tools: " + " ".join(missing))
    sys.exit(1)
print("tools present")
