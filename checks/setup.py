#!/usr/bin/env python3
"""Builds the assembler and the TLC accelerators once; every check builds again what it needs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, tla, selftest
print(build.build())
print(tla.classes())
selftest.run()
print("I64 accelerators agree with their TLA+ definitions")
