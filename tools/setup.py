#!/usr/bin/env python3
"""nothing has to be prepared: every check builds what it needs. verifies that the tools are there"""
import shutil, sys
missing = [t for t in ("gcc", "clang", "python3") if not shutil.which(t)]
print("missing: " + " ".join(missing) if missing else "ready")
sys.exit(1 if missing else 0)
