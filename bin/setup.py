#!/usr/bin/env python3
"""Checks that the tools are there and builds the engine (every check builds what it misses)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
b = build.Builder()
print(b.engine().result())
