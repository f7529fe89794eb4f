#!/usr/bin/env python3
"""Builds the extractor and extracts the current tree once."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vclib import program  # noqa: E402
program.build_extractor()
try:
    P = program.load()
    print('%d functions, %d units' % (len(P.functions), len(P.units)))
except program.AnalysisBroken as e:
    print(e)
