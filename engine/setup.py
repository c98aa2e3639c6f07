#!/usr/bin/env python3
"""setup_cmd: builds the fact dumper (offline, clang 18 libraries)."""
import sys,os
sys.dont_write_bytecode=True
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import lib
print(lib.dumper())
