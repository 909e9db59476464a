#!/usr/bin/env python3
"""setup_cmd: the checks compile their harnesses themselves (from /repo's current tree), so all that is
needed here is to see that the installed tools are there."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("setup ok")
