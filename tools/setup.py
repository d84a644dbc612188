"""Checks that the toolchain is there and that every module of the specification parses."""
import glob
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
mods = sorted(os.path.basename(m) for m in glob.glob(os.path.join(ROOT, "spec", "*.tla")))
r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY"] + mods, cwd=os.path.join(ROOT, "spec"),
                   capture_output=True, text=True)
bad = r.returncode != 0 or "*** Errors" in r.stdout
print("parsed %d modules" % len(mods) if not bad else r.stdout[-3000:] + r.stderr)
sys.exit(1 if bad else 0)
