#!/usr/bin/env python3
"""Nothing to build: checks that the two interpreters and the solver are there."""
import shutil, subprocess, sys
pv = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python"
r = subprocess.call([pv, "-c", "import z3; print('z3', z3.get_version_string())"])
r |= subprocess.call(["/opt/venv/bin/python", "-c", "import numpy; print('numpy', numpy.__version__)"])
sys.exit(r)
