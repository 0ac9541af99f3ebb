#!/usr/bin/env python3
"""Checks that the toolchain and module cache are there and warms the build cache.
The checks build what they need themselves; nothing here is required by them."""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from check import ROOT, goenv
d = tempfile.mkdtemp(prefix="vh-setup-")
try:
    shutil.copytree(os.path.join(ROOT, "harness"), os.path.join(d, "harness"))
    p = subprocess.run(["go", "build", "-o", os.path.join(d, "bin") + "/", "./..."], cwd=os.path.join(d, "harness"), env=goenv({"CGO_ENABLED": "0"}))
    sys.exit(p.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)
