#!/usr/bin/env python3
"""run.py PROPERTY...  Decides properties on the current working tree of /repo."""
import os, sys, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa import rule
for f in sorted(glob.glob(os.path.join(V, 'rules', '*.py'))):
    n = os.path.basename(f)[:-3]
    if not n.startswith('_'):
        importlib.import_module('rules.' + n)
if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ids = sys.argv[1:] or sorted(rule.RULES)
    rc = 0
    for i in ids:
        r = rule.run(i, tier, seed)
        if len(ids) == 1: sys.exit(r)
        rc = max(rc, r)
    sys.exit(rc)
