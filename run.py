#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough] : decide one property on /repo's current source."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.report import main

if __name__ == "__main__":
    rc = main(sys.argv)
    sys.stdout.flush()
    os._exit(rc)
