#!/usr/bin/env python3
"""Builds the IR and AST exporters the checks use into .build (they are also built on demand)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import core
print(core.irx())
if os.path.exists(os.path.join(core.VERIF, 'tools', 'astx', 'astx.cpp')):
    print(core.astx())
