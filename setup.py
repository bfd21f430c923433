#!/usr/bin/env python3
"""Builds everything the checks need, so that each check has only to rebuild what changed."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core  # noqa: E402

core.build_bins()
if os.path.isdir(os.path.join(core.VERIF, "pkt")):
    core.build_crate("pkt")
print("built")
