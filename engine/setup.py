#!/usr/bin/env python3
"""builds the IR exporter and the polyhedra library"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import build
print(build.exporter())
print(build.lp_library())
