#!/usr/bin/env python3
"""Checks the toolchain and builds the driver once (each check builds it again from /repo)."""
import os, sys, tempfile, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
import check
with tempfile.TemporaryDirectory() as d: check.build(d)
subprocess.run(["java", "-version"], check=True)
print("setup ok")
