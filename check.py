#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import core  # noqa
from sa.rules import load_all  # noqa

if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = 'thorough' if '--thorough' in sys.argv or '--tier=thorough' in sys.argv else 'quick'
    load_all()
    pids = args or sorted(core.REGISTRY)
    rc = 0
    for pid in pids:
        rc = max(rc, core.run(pid, tier))
    sys.exit(rc)
