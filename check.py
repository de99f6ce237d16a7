#!/usr/bin/env python3-vt
"""check.py PROPERTY [--thorough]   decide one property on /repo's current tree
   check.py --replay FILE           re-run a recorded counterexample
"""
import os
import sys
import json
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pyvc import driver
sys.exit(driver.main(sys.argv[1:]))
