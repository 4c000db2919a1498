#!/usr/bin/env python3
"""Fill in what the code makes of the streams of a file (for review)."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks import c12                                       # noqa: E402
from sa.model import Model                                      # noqa: E402
from sa.streams import Feed                                     # noqa: E402

F = Feed(Model(os.environ.get('VERIF_REPO', '/repo')), False)
want = {}
for name, i, o, _ in c12.read(sys.argv[1]):
    r = c12.evaluate(F, i, o)
    u = F.I.undecided[F.u0:]
    want[name] = ['? undecided %s' % (u[:1],)] if r is None or u else r
name = None
out = []


def flush():
    if name is not None:
        out.extend('= ' + x for x in want[name])


with open(sys.argv[1], encoding='utf-8') as f:
    for line in f:
        line = line.rstrip('\n')
        if line.startswith('= '):
            continue
        if line.startswith('== '):
            flush()
            name = line[3:]
        out.append(line)
flush()
print('\n'.join(out))
