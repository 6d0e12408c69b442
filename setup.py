#!/usr/bin/env python3
"""setup_cmd: builds the harness, so that a broken toolchain shows up before any check."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core
print(core.build())
