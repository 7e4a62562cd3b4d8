#!/usr/bin/env python3
"""Nothing is prebuilt (every check builds from /repo); only verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("gcc", "clang", "go", "ar", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)
