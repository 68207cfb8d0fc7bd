#!/usr/bin/env python3
"""setup_cmd: build the generator once (every check rebuilds what it needs by itself; this only warms the build directory)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import common
print(common.cli())
