#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (checks build from /repo's current tree); verifies the tools are there."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + " ".join(missing))
    sys.exit(1)
