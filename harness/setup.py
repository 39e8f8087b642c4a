"""Builds the compiled extensions in every flavour from /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
for f in ("plain", "asan"):
    print(f, build.build(f))
