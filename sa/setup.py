#!/usr/bin/env python3
"""builds the IR dumper (checks build it themselves when it is missing)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
print(ir.irdump_tool())
