#!/usr/bin/env python3
"""Draft spec/values.txt from a list of words (authoring aid: the drafted
lines are reviewed against the RFCs by hand; no check uses this)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.model import Model            # noqa: E402
from sa.headval import Words          # noqa: E402

W = Words(Model('/repo'))
for ln in open(sys.argv[1]):
    ln = ln.rstrip('\n')
    if not ln.strip():
        continue
    name, _, f = ln.partition(': ')
    v, ns = W.load(name, f.split(' ++ '))
    print(ln)
    print('    [%s] %s' % (' '.join(ns), v))
