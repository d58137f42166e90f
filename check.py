#!/usr/bin/env python3-vt
"""check.py <property id>: exit 0 held, 1 violation, other = no answer."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.driver import main
sys.exit(main(sys.argv[1]))
