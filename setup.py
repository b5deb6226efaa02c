#!/usr/bin/env python3
"""Nothing to build: check that the tools are there and the specification parses."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
spec = os.path.join(HERE, "spec")
mods = sorted(f for f in os.listdir(spec) if f.endswith(".tla"))
p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY"] + mods, cwd=spec, capture_output=True, text=True)
if p.returncode != 0 or "rror" in p.stdout.replace("Errors: 0", ""):
    print(p.stdout[-3000:], p.stderr[-2000:])
    sys.exit(1)
print(f"{len(mods)} specification modules parse")
