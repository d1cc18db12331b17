#!/usr/bin/env python3-vt
"""check.py <property> [--quick|--thorough] [--replay FILE] [--only TEST]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import pbt
sys.exit(pbt.main(importlib.import_module("checks." + sys.argv[1].lower()), sys.argv[2:]))
