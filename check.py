#!/usr/bin/env python3
"""check.py ID [--thorough] [--replay FILE]: decides one property (see DESIGN.md)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import core  # noqa: E402

try:
    code = core.main(sys.argv)
except Exception as e:  # an error of the check, not a verdict
    import traceback
    traceback.print_exc()
    print("ERROR", e)
    code = 2
sys.exit(code)
