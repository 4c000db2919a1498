#!/usr/bin/env python3
"""Decide one property of /repo statically:  check.py ID [--tier quick|thorough]

Exit 0: holds on everything analysed.  Exit 1: VIOLATION line(s).  Exit 2: the
analysis could not be carried out (e.g. an anchor has vanished).
"""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def load_known():
    """Listed findings: property -> set of keys."""
    r = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                r.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return r


def main(argv):
    pid = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    root = os.environ.get('VERIF_REPO', '/repo')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('sa.checks.' + pid.lower())
    from sa.checks.common import Ctx
    ctx = Ctx(pid, root, tier)
    try:
        mod.run(ctx)
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the analysis failed' % pid)
        return 2
    known = load_known().get(pid, {})
    viol, listed, seen = [], [], set()
    for v in ctx.violations:
        if v['key'] in seen:
            continue
        seen.add(v['key'])
        (listed if v['key'] in known else viol).append(v)
    cov = dict(ctx.coverage)
    cov.setdefault('explanation', mod.__doc__ or '')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMES', ())),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if listed:
        ev['known_findings'] = [v['key'] for v in listed]
    edir = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    replay = os.path.join(edir, pid + '.violations.json')
    with open(os.path.join(edir, pid + '.json'), 'w',
              encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    if os.path.exists(replay):
        os.remove(replay)
    for v in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, known[v['key']]))
    if not viol:
        print('OK property=%s %s' % (pid, json.dumps(
            {k: x for k, x in cov.items() if isinstance(x, (int, bool))})))
        return 0
    with open(replay, 'w', encoding='utf-8') as f:
        json.dump(viol, f, indent=1, default=str)
        f.write('\n')
    for v in viol:
        print('  %s: %s' % (v['where'], v['what']))
    print('VIOLATION property=%s replay=%s' % (
        pid, os.path.relpath(replay, HERE)))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv))
