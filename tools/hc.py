#!/usr/bin/env python3
"""hc.py NAME: compiles a harness and prints c3c's complaints."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import c3, lib
c3.init_scratch("hc")
try:
    print(c3.harness(sys.argv[1], tuple(sys.argv[2:]) or lib.ASAN))
except c3.HarnessBroken as e:
    print(str(e)[-2500:])
finally:
    c3.drop_scratch()
