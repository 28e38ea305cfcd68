#!/usr/bin/env python3
"""Nothing to build: check that the interpreter and the library under test are there."""
import os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
r = subprocess.run(["/opt/venv/bin/python", "-B", "-c", "import sys; sys.path.insert(0, %r)\nfrom jv import boot\nboot.import_jajapy()" % root])
sys.exit(r.returncode)
