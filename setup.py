#!/usr/bin/env python3
"""Builds the simulation binaries once (the checks rebuild what /repo's changes touch)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim"))
import build, props
try:
    for k in sorted({(c["mode"], c["harness"]) for c in props.CFG.values()}):
        print(build.build(*k))
except build.BuildError as e:
    print(e); sys.exit(2)
