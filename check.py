#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]"""
import importlib
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vclib import program, ctx as C   # noqa: E402


def main():
    prop = sys.argv[1]
    tier = 'thorough' if 'thorough' in sys.argv[2:] else 'quick'
    t0 = time.time()
    try:
        P = program.load()
        mod = importlib.import_module('vclib.rules.' + prop.lower())
        c = C.Ctx(prop, P)
        c.t0 = t0
        mod.run(P, c, tier)
    except program.AnalysisBroken as e:
        print('ANALYSIS BROKEN: %s' % e)
        return 2
    return C.report(c, tier, mod.RULE, mod.ASSUMPTIONS, getattr(mod, 'LEVEL', 'other'))


if __name__ == '__main__':
    sys.exit(main())
