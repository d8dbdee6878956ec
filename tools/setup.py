#!/usr/bin/env python3
"""compiles the Java operators behind the specification's arithmetic, and parses the specifications"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from lib import build
print(build.java())
