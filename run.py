#!/usr/bin/env python3
"""run.py <PROPERTY> [--thorough] [--family=NAME] [--scale=X] [--replay=FILE]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import pbt
pid = sys.argv[1]
mod = importlib.import_module(f"checks.{pid}")
sys.exit(pbt.main(mod.CHECK, sys.argv[2:]))
