#!/usr/bin/env python3
"""setup_cmd: nothing is installed; checks build what they need. Verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
print("missing:" if missing else "ok", *missing); sys.exit(1 if missing else 0)
