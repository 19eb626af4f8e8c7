#!/usr/bin/env python3
"""Checks that the tools the checks need are there and parses the specifications."""
import glob
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tlc  # noqa: E402

for c in (["java", "-version"], ["cargo", "--version"]):
    if subprocess.run(c, capture_output=True).returncode:
        sys.exit("%s does not work" % c[0])
bad = 0
for f in sorted(glob.glob(os.path.join(tlc.SPEC, "*.tla"))):
    r = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", f], cwd=tlc.SPEC, capture_output=True, text=True)
    if r.returncode:
        bad += 1
        print(f, r.stdout[-800:])
print("setup: %s" % ("specifications do not parse" if bad else "ok"))
sys.exit(1 if bad else 0)
