#!/usr/bin/env python3
"""Nothing to build in advance: every check compiles what it needs in a scratch
directory.  This only verifies that the tools are there."""
import os, shutil, sys
missing = [t for t in ("java", "javac", "g++", "clang++") if not shutil.which(t)]
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    missing.append("tla2tools.jar")
print("missing: %s" % missing if missing else "tools present")
sys.exit(1 if missing else 0)
