#!/usr/bin/env python3
"""checks that the tools the checks need are there (every check builds what it
runs from /repo's working tree, so there is nothing to prepare)"""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "python3", "ar"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print("ready")
