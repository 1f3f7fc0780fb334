#!/usr/bin/env python3
"""Nothing to build: the checks are Python over clang's IR. Verifies the toolchain."""
import os, shutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
for t in ("clang", "opt"):
    p = shutil.which(t) or shutil.which(t + "-18") or ("/usr/lib/llvm-18/bin/" + t if os.path.exists("/usr/lib/llvm-18/bin/" + t) else None)
    print(t, p)
    if not p:
        sys.exit("missing " + t)
