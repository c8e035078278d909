#!/usr/bin/env python3
"""Builds the harnesses once (the checks rebuild what changed) and checks that the tools are there."""
import glob, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
for t in ("java", "g++", "gcc", "mpirun"):
    if not shutil.which(t): sys.exit(f"missing tool: {t}")
hs = sorted(os.path.basename(p)[:-4] for p in glob.glob(os.path.join(vbuild.VERIF, "harness", "h_*.cxx")))
print(vbuild.build(hs, "rel"))
