#!/usr/bin/env python3
"""union.py REGEX: mutants of the analysed functions matching REGEX that no check reports"""
import os, re, sys, warnings, multiprocessing
warnings.simplefilter('ignore'); sys.setrecursionlimit(10000); sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import core, selftest
from sa.rules import load_all
load_all()
FN = {}
def one(job):
    rel, desc, src, pids = job
    sys.setrecursionlimit(10000)
    errs = []
    for pid in pids:
        d, st, m, r = selftest._one((pid, rel, desc, src))
        if st == 'caught':
            return desc, pid, '', rel
        if st != 'quiet':
            errs.append('%s:%s:%s' % (pid, st, m[:80]))
    return desc, None, ' '.join(errs), rel
if __name__ == '__main__':
    rx = sys.argv[1]
    for pid in sorted(core.REGISTRY):
        for f in core.analyse(pid).functions:
            FN.setdefault(f, []).append(pid)
    prog = core.Program()
    allf = set(FN)
    fns = [f for f in FN if re.search(rx, f)]
    jobs = []
    for r, d, s in selftest.mutants(prog, set(fns)):
        if len(sys.argv) > 2 and not re.search(sys.argv[2], d):
            continue
        name = d.split(':')[0]
        pids = sorted({p for f in fns if f.endswith('.' + name) for p in FN[f]})
        jobs.append((r, d, s, pids))
    with multiprocessing.Pool(8) as pool:
        res = list(pool.imap_unordered(one, jobs))
    quiet = sorted((d, m) for d, p, m, rel in res if p is None)
    for d, m in quiet:
        print(d, m)
    print(len(res), 'mutants', len(quiet), 'unreported')
