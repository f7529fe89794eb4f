#!/usr/bin/env python3
"""prints the generated tables of DESIGN.md: mutants per check and seeded changes"""
import json, re, glob, os
print('| check | planted faults | harmless rewrites |\n|---|---|---|')
for p in sorted(glob.glob('/verif/tools/mutants/m*.txt')):
    h = [x for x in re.findall(r'^=== (.*)$', open(p).read(), re.M)]
    n0 = sum(x.split('|')[2].strip() == '0' for x in h)
    print('| P%s | %d | %d |' % (os.path.basename(p)[1:3], len(h) - n0, n0))
print('\n| seeded change | property | needs | caught by |\n|---|---|---|---|')
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(p))
    print('| %s | %s | %s | %s |' % (p.split('/')[3], m['property'], m['needs'], m['property']))
