#!/usr/bin/env python3
"""builds the analyser (engine/irdump.cpp)"""
import os, sys
sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine")]
import build_ir
print(build_ir.irdump_bin())
