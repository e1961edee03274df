#!/usr/bin/env python3
"""Prepares the framework: checks that the tools it needs are here and fills the compiler cache with everything the checks
build. A build failure here is not fatal: the check concerned reports it when it runs."""
import os, shutil, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, os.path.join(V, "checks"))
missing = [t for t in ("g++", "ninja", "python3") if not shutil.which(t)]
if missing: print("missing tools:", missing); sys.exit(1)
import vbuild, config
t0 = time.time()
for name in config.BUILDS:
    try: print("built", name, config.exe(name), "%.0fs" % (time.time() - t0), flush=True)
    except vbuild.BuildError as e: print("could not build", name, str(e)[-1500:], flush=True)
print("ok")
