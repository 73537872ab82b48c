#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there.  Each check builds what it needs
from /repo's working tree itself, so nothing built here is relied on."""
import shutil
import sys

missing = [t for t in ("g++", "ninja", "python3", "valgrind") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ready")
