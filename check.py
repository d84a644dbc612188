#!/usr/bin/env python3
"""check.py C04 [--quick|--thorough]: decide one property on /repo's working tree."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.environ.get("VF_PY") != "1":
    os.environ["VF_PY"] = "1"
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.core import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
