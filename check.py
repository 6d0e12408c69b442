#!/usr/bin/env python3
"""python3 check.py C01 [quick|thorough]: decides one property (see DESIGN.md)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import checks, core
sys.exit(core.main(checks.CHECKS))
