#!/usr/bin/env python3
"""Entry point of every check: python3 run.py PROPERTY [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
os.chdir(ROOT)

import checks  # noqa: E402

sys.exit(checks.main(sys.argv[1:]))
