#!/usr/bin/env python3
"""check.py <property>: see checklib.py."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checklib
checklib.main()
