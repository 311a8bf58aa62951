#!/usr/bin/env python3
"""Check that the tools the checks need are here; nothing is built ahead of a check."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import overlay, prove
assert shutil.which("cargo"), "cargo not found"
assert os.path.exists(os.path.join(prove.kani_bin(), "bin", "cbmc")), "cbmc of kani not found"
assert os.path.isdir(overlay.kani_toolchain())
subprocess.run(["cargo", "kani", "--version"], check=True)
os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
print("ready")
