#!/usr/bin/env python3
"""mut.py PID [regex]: list the mutants of the functions a check analyses on which it stays quiet or gives no answer"""
import os, re, sys, warnings
warnings.simplefilter('ignore'); sys.setrecursionlimit(10000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core, selftest
from sa.rules import load_all
load_all()
pid = sys.argv[1]
ctx = core.analyse(pid)
fns = [f for f in ctx.functions if len(sys.argv) < 3 or re.search(sys.argv[2], f)]
total, res = selftest.sweep(pid, fns)
for st in ('crash', 'error', 'quiet'):
    for d, s, m, rel in sorted(r for r in res if r[1] == st):
        print(st, d, m)
print(total, {k: sum(1 for r in res if r[1] == k) for k in ('caught', 'quiet', 'error', 'crash')})
