#!/usr/bin/env python3
"""Checks that the tools the checks need are there; nothing is built."""
import subprocess, sys
PY = '/opt/venv/bin/python'
r = subprocess.run([PY, '-c', "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3; print('z3', z3.get_version_string())"])
s = subprocess.run(['cvc5', '--version'], stdout=subprocess.DEVNULL)
sys.exit(r.returncode or s.returncode)
