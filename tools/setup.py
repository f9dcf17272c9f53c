#!/usr/bin/env python3
"""Checks that what the checks need is present. Every check builds itself."""
import os, shutil, sys
for t in ("g++", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print("ok")
