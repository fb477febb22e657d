#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's source."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from runner import main
sys.exit(main(sys.argv[1:]))
