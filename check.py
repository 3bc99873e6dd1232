#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vlib"))
import driver
sys.exit(driver.main(sys.argv[1:]))
