#!/usr/bin/env python3
"""Checks that the tools the checks need are there; the checks build for themselves."""
import subprocess, sys
for c in (["cargo", "--version"], ["rustc", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    r = subprocess.run(c, capture_output=True, text=True)
    print(" ".join(c), "->", (r.stdout or r.stderr).strip())
    if r.returncode:
        sys.exit(1)
