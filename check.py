#!/usr/bin/env python3
"""usage: check.py PROPERTY_ID..."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine.check import run
rc = 0
for a in sys.argv[1:]:
    r = run(a)
    rc = max(rc, r) if rc != 1 else 1
    if r == 1:
        rc = 1
sys.exit(rc)
