#!/usr/bin/env python3
"""Checks that the tools the checks need are present (the checks build everything themselves, from /repo's current tree)."""
import shutil, sys, os
missing = [t for t in ("gcc", "g++", "clang", "clang++", "cmake", "ninja") if not shutil.which(t)]
if missing: print("missing tools: " + ", ".join(missing)); sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok")
