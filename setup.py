#!/usr/bin/env python3
"""Checks that what the checks need is there; they build everything else themselves."""
import shutil, subprocess, sys
for t in ("cargo", "rustc"):
    if not shutil.which(t):
        sys.exit("missing " + t)
r = subprocess.run(["cargo", "kani", "--version"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(r.stdout.strip())
sys.exit(r.returncode)
