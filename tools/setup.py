#!/usr/bin/env python3
"""Checks that the tools the checks need are there."""
import os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "lib")]
import ws
assert shutil.which("tlc"), "TLC is missing"
env = ws.goenv()
print(subprocess.run(["go", "version"], env=env, capture_output=True, text=True).stdout.strip())
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
